"""What MANIFEST.json says of properties whose check is not only the common one."""
CLAIM = {
 'P11': ('TLA+ model of the writer and of the file system checked with TLC; its fault plans (failing system calls, kills, file size limits) carried out on real writes with strace, and every recorded system call and resulting directory checked by TLC against the file system model (trace validation)',
         'model_checking', 'Exhaustive over single faults and over pairs of faults of the modelled calls for the documents tried (write calls beyond the first few are sampled); the file system model (FileSys.tla) is trusted to describe POSIX, strace to inject and record. Power failure is judged on the model: renamed data must have been synced.'),
 'P14': ('TLA+ specification over extreme argument values simulated with TLC; its histories replayed on the library built with address and undefined behaviour sanitizers, every call outcome and error message compared',
         'model_checking', 'Which calls must succeed and which be refused is decided by the specification; crashes, memory errors and undefined behaviour by the sanitizers on the replayed histories. Sampled, not exhaustive. Handles are live ones, null only where the header allows it, files well formed or absent. Undefined enumeration and vptr checks of UBSan are off.'),
 'P23': ('TLA+ specification with an isolation invariant (every document equals the one its own calls give alone) checked with TLC; its histories replayed twice in different processes, times, locales and memory contents, and each document alone, and the written bytes compared',
         'model_checking', 'The bytes are compared after removing the random file identifier, which is meant to differ. Histories are sampled; documents of up to two generators. Two builds (one with automatic variables initialised to a pattern) stand for different memory contents.'),
}
NOT = {}
