ded = 'contract-based deductive verification of the LLVM IR of the real sources (obligations discharged by z3)'
MORE = {
 'C13': (ded, 'Names: the concatenation expressions produced by the real constructor code are compared by the string solver for all namespaces and names; every shm_open/sem_open/acquire in every public operation is checked against its role.'),
 'C19': (ded, 'Every operator and helper for every code of every enum, all inputs; getDescriptions and Journal::log bodies executed on a symbolic set.'),
 'C20': (ded, 'createView for every element type and layout, all inputs (rows, cols, offsets, strides symbolic); exception path included.'),
 'C16': (ded, 'Producer executed as it is for all inputs; inductive invariant over its cells for all histories; arbitrary interference of other processes whenever a mutex is free; boost and the shared counters by contract.'),
 'C17': (ded, 'Consumer executed as it is for all inputs, outcomes of the callback and interference; inductive invariant over its cells for all histories; boost and the shared counters by contract.'),
 'C18': (ded, 'ConditionVariable executed as it is in both roles, all histories of close and destruction, all failures of removal and creation; deadline arithmetic of boost::posix_time executed, not assumed.'),
 'C14': (ded, 'StringTensor.cpp executed as it is for Server and Client, strings of every length 0..1024 with all bytes symbolic (66 length ranges cover them all), lists of any length by induction over the loops; the transfer by contract (C01-C09).'),
 'C15': (ded, 'All requests (indexes, lengths, lists of any length, tensors of any number of slots, all states) on StringTensor.cpp as it is; every access to buffers, strings and lists is an obligation; the transfer by contract (C01-C09).'),
 'C21': (ded, 'The binding lambdas and wrappers are executed on symbolic numpy descriptors (dtype, shape, strides, flags), for every element type and layout, through the real pybind11 headers.'),
 'C22': ('contract-based deductive verification of the real Python sources (verification conditions generated from the unmodified files, discharged by z3)', 'The two wrapper modules executed as they are: all shapes, indexes, sizes, contents, name and dimension lists of any length; numpy, torch and the extension module by contract; a client starting at any point of the server\'s start.'),
}
NA = {
}
