//gvc:pkg .
package gev

import "testing"

func TestGVCC24(t *testing.T) { gvcCoreRun(t, "C24") }
