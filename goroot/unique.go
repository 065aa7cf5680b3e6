package unique

import isync "internal/sync"

var (
	verifMu  isync.Mutex
	verifMap = map[any]any{}
)
