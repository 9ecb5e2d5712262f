//gvc:pkg .
package gev

import "testing"

func TestGVCC04(t *testing.T) { gvcCoreRun(t, "C04") }
