//gvc:pkg .
package gev

import "testing"

func TestGVCC01(t *testing.T) { gvcCoreRun(t, "C01") }
