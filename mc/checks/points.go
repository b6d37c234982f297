//go:build remote

package checks

import "github.com/zhiqiangxu/mondis/vsched"

func init() { onPoint = vsched.OnPoint }
