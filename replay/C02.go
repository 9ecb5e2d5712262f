//gvc:pkg .
package gev

import "testing"

func TestGVCC02(t *testing.T) { gvcCoreRun(t, "C02") }
