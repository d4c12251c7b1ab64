package main

// Environment stubs: standard-library functions replaced by pure-Go models in
// the verifnd package.
var stdStubs = [][2]string{
	{"internal/bytealg.IndexByte", "BytealgIndexByte"},
	{"internal/bytealg.IndexByteString", "BytealgIndexByteString"},
	{"internal/bytealg.LastIndexByte", "BytealgLastIndexByte"},
	{"internal/bytealg.Count", "BytealgCount"},
	{"internal/bytealg.CountString", "BytealgCountString"},
	{"internal/bytealg.Equal", "BytesEqual"},
	{"internal/bytealg.Compare", "BytesCompare"},
	{"bytes.Index", "BytesIndex"},
	{"strings.Index", "StringsIndex"},
	{"bytes.Equal", "BytesEqual"},
	{"bytes.Compare", "BytesCompare"},
	{"bytes.IndexByte", "BytealgIndexByte"},
	{"bytes.Count", "BytesCount"},
	{"os.Open", "OsOpen"},
	{"os.ReadFile", "OsReadFile"},
	{"(*os.File).Read", "FileRead"},
	{"(*os.File).Close", "FileClose"},
	{"VERIFND.Dir", "ModelDir"},
	{"VERIFND.Put", "ModelPut"},
	{"fmt.Errorf", "FmtErrorf"},
	{"fmt.Sprintf", "FmtSprintf"},
	{"sync/atomic.LoadUint32", "AtomicLoad32"},
	{"sync/atomic.StoreUint32", "AtomicStore32"},
	{"sync/atomic.AddUint32", "AtomicAdd32"},
	{"sync/atomic.SwapUint32", "AtomicSwap32"},
	{"sync/atomic.CompareAndSwapUint32", "AtomicCAS32"},
	{"sync/atomic.LoadUint64", "AtomicLoad64"},
	{"sync/atomic.StoreUint64", "AtomicStore64"},
	{"sync/atomic.AddUint64", "AtomicAdd64"},
	{"sync/atomic.SwapUint64", "AtomicSwap64"},
	{"sync/atomic.CompareAndSwapUint64", "AtomicCAS64"},
	{"sync/atomic.LoadUintptr", "AtomicLoad64"},
	{"sync/atomic.StoreUintptr", "AtomicStore64"},
	{"sync/atomic.AddUintptr", "AtomicAdd64"},
	{"sync/atomic.SwapUintptr", "AtomicSwap64"},
	{"sync/atomic.CompareAndSwapUintptr", "AtomicCAS64"},
	{"sync/atomic.LoadInt32", "AtomicLoadS32"},
	{"sync/atomic.StoreInt32", "AtomicStoreS32"},
	{"sync/atomic.AddInt32", "AtomicAddS32"},
	{"sync/atomic.SwapInt32", "AtomicSwapS32"},
	{"sync/atomic.CompareAndSwapInt32", "AtomicCASS32"},
	{"sync/atomic.LoadInt64", "AtomicLoadS64"},
	{"sync/atomic.StoreInt64", "AtomicStoreS64"},
	{"sync/atomic.AddInt64", "AtomicAddS64"},
	{"sync/atomic.SwapInt64", "AtomicSwapS64"},
	{"sync/atomic.CompareAndSwapInt64", "AtomicCASS64"},
	{"sync/atomic.LoadPointer", "AtomicLoadPtr"},
	{"sync/atomic.StorePointer", "AtomicStorePtr"},
	{"sync/atomic.SwapPointer", "AtomicSwapPtr"},
	{"sync/atomic.CompareAndSwapPointer", "AtomicCASPtr"},
	{"(*sync/atomic.Value).Load", "AtomicValueLoad"},
	{"(*sync/atomic.Value).Store", "AtomicValueStore"},
	{"(*sync/atomic.Value).Swap", "AtomicValueSwap"},
	{"(*sync/atomic.Value).CompareAndSwap", "AtomicValueCAS"},
	{"(*sync.Mutex).Lock", "Lock"},
	{"(*sync.Mutex).Unlock", "Unlock"},
	{"(*sync.Mutex).TryLock", "TryLock"},
	{"(*sync.RWMutex).Lock", "RWLock"},
	{"(*sync.RWMutex).Unlock", "RWUnlock"},
	{"(*sync.RWMutex).RLock", "RWRLock"},
	{"(*sync.RWMutex).RUnlock", "RWRUnlock"},
	{"(*sync.RWMutex).TryLock", "RWTryLock"},
	{"(*sync.RWMutex).TryRLock", "RWTryLock"},
	{"(*sync.Once).Do", "OnceDo"},
	{"(*sync.Pool).Get", "PoolGet"},
	{"(*sync.Pool).Put", "PoolPut"},
	{"(*sync.Map).Load", "MapLoad"},
	{"(*sync.Map).Store", "MapStore"},
	{"(*sync.Map).Clear", "MapClear"},
	{"(*sync.Map).Delete", "MapDelete"},
	{"(*sync.Map).LoadOrStore", "MapLoadOrStore"},
	{"(*sync.Map).LoadAndDelete", "MapLoadAndDelete"},
	{"(*sync.Map).Swap", "MapSwap"},
	{"(*sync.Map).CompareAndSwap", "MapCompareAndSwap"},
	{"(*sync.Map).Range", "MapRange"},
	{"internal/bytealg.Index", "BytesIndex"},
	{"internal/bytealg.IndexString", "StringsIndex"},
	{"internal/bytealg.LastIndexByteString", "BytealgLastIndexByteString"},
	{"internal/bytealg.CompareString", "StringsCompare"},
}
