//gvc:pkg .
package gev

import "testing"

func TestGVCC09(t *testing.T) { gvcCoreRun(t, "C09") }
