# What each check trusts and leaves out, for the manifest.
BASE = 'Searches generated cases only (thorough: longer, the generator\'s choices mutated under coverage guidance). '
M = 'Trusts the reference document model in harness/model.cc, the sanitizers and the compiler. '
NOTE.update({
 'D01': BASE + M + 'Documents of at most a few hundred nodes; strings to a little over 70 kB.',
 'D02': BASE + M + 'Objects to a few hundred keys.',
 'D03': BASE + M + 'Histories of some dozens of operations.',
 'D04': BASE + M + 'Histories of some dozens of operations.',
 'D05': BASE + M + 'Up to a dozen handles per history.',
 'D06': BASE + 'Trusts an independent JSON writer and parser in harness/, and strtod for decimals. RapidJSON is the only parser built here; sajson is not installed.',
 'D07': BASE + 'Oracle: an independent JSON acceptor in harness/, AddressSanitizer and UBSan. Nesting bounded; unbounded nesting is a known finding.',
 'D08': BASE + 'Oracle: whatever validation accepts must be readable in full under AddressSanitizer and UBSan with the buffer\'s end guarded. Nesting bounded; unbounded nesting is a known finding.',
 'D09': BASE + M,
 'D10': BASE + 'Trusts an allocator which fills fresh memory with leftovers.',
 'D11': BASE + M,
 'D12': BASE + M,
 'D13': BASE + M,
 'D14': BASE + 'Trusts a table of which accessor accepts which type, written from the documentation.',
 'D15': BASE + M + 'A fixed list of native types, with generated values; another instantiation may differ.',
 'D16': BASE + M,
 'D17': BASE + 'AddressSanitizer decides use after free; block accounting decides leaks.',
 'D18': BASE + 'ThreadSanitizer decides races on the schedules that occurred: schedules are sampled by the operating system over many short histories, not enumerated.',
 'D19': BASE + M + 'Every exported function is called.',
 'D20': BASE + 'Misuse the interface cannot detect (dangling or uninitialised handles) is left out.',
 'D21': BASE + M + 'Trusts libyaml as installed.',
 'D22': BASE + M,
 'D23': BASE + M,
 'D24': 'Every allocation of each generated operation is made to fail once; the operations themselves are generated. Failures of aligned and plain allocations alike. Trusts the interposed allocator.',
 'D25': BASE + M + 'Counters: shared_ptr, unsafe_ptr, skinny_ptr and instrumented custom counters.',
 'D26': BASE + 'Trusts the standard library\'s own types (compiled in C++17 mode where the comparison needs them).',
 'D27': BASE + 'Trusts an encoder and decoder of the wire format written from the headers, in harness/codec.cc.',
})
