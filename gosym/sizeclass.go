package main

// Go's allocator size classes (internal/runtime/gc/sizeclasses.go, go1.27):
// they decide the capacity append() leaves behind, which is observable through
// aliasing.
var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int64, noscan bool) int64 {
	req := size
	if req <= 32768-8 {
		if !noscan && req > 512 {
			req += 8
		}
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	return (req + 8191) &^ 8191
}

func nextSliceCap(newLen, oldCap int) int {
	if newLen > 2*oldCap {
		return newLen
	}
	if oldCap < 256 {
		return 2 * oldCap
	}
	c := oldCap
	for {
		c += (c + 3*256) >> 2
		if c >= newLen {
			return c
		}
	}
}

func growCap(newLen, oldCap int, esize int64, noscan bool) int {
	if esize == 0 {
		return newLen
	}
	return int(roundupsize(int64(nextSliceCap(newLen, oldCap))*esize, noscan) / esize)
}
