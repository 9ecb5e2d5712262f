//gvc:pkg .
package gev

import "testing"

func TestGVCC03(t *testing.T) { gvcCoreRun(t, "C03") }
