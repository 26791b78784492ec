TECH.update({
 'C01': 'typestate of the handshake recovered from the source and checked on all paths',
 'C02': 'path-sensitive dominance (admission dominated by verification) and dataflow of the challenge',
 'C03': 'path-sensitive dataflow of the rule search and of rule updates',
 'C04': 'typestate analysis of the connection state over all entry points',
 'C06': 'dataflow of identity and send time into every transmission, over all paths of the host',
 'C07': 'path-sensitive effect analysis of event forwarding',
 'C08': 'path-sensitive effect analysis of group requests',
 'C09': 'path-sensitive effect and order analysis of the disconnect handling',
 'C10': 'path-sensitive typestate of the host connection and the joined groups over all entry points of a guest',
 'C11': 'path-sensitive dominance of validation over publishing, and evaluation of property-set expressions over their truth tables',
 'C12': 'path-sensitive effect analysis of container operations',
 'C13': 'path-sensitive order analysis of cache updates and handler calls',
 'C14': 'path-sensitive effect analysis with exceptional edges of handler dispatch and removal',
 'C15': 'ownership analysis of subscriptions: paths, captures and destruction order',
 'C05': 'path-sensitive dominance over the handshake handlers',
 'C26': 'effect and liveness analysis of every asynchronous completion: object liveness after destroyers, capture ownership, tokens',
 'C27': 'path-sensitive typestate of channels and listeners over all methods and completions, with exceptional edges',
 'C28': 'path-sensitive typestate of channels and listeners over all methods and completions, with exceptional edges',
 'C29': 'path-sensitive analysis of the completion handlers of timers and observers: which facts about the shared state (reference count, detached flag, error) hold when the handler is called and when the next wait starts, where the facts were established (before or after the handler), and data flow of intervals, due times and ids',
 'C30': 'path-sensitive analysis of the life cycle of applications (constructor with failing calls, destructor, transition and signal handlers, options), of the global transceiver and of posted handlers: facts that hold when the event loop is run or left, order and multiplicity of effects, provenance of configured values',
 'C25': 'abstract interpretation of the write buffers: every path of every transmitImpl is replayed on symbolic buffer contents (segments with symbolic lengths), which yields the bytes each path appends; size fields, order, attributes, limit, rollback and cache are judged on that; typestate rules for the write flag and the receive chain',
 'C21': 'abstract interpretation with linear inequalities over the AST (regions with symbolic sizes, pointers as region and offset, Fourier-Motzkin entailment, loop invariants from candidate inequalities): every read, write, cursor movement, view and index of the readers and of code that parses text is proved to stay inside its region',
 'C22': 'the same abstract interpretation with taint: conversions of numbers of the input fit their type, allocations are bounded by the input size, loops have a ranking function, the call graph of the readers is recursion-free except over the type structure',
 'C24': 'path-sensitive analysis with exceptional edges: level of nested visits as symbolic value plus constant, least fixed point of the levels lost by exceptions, mutated-field summaries of readers and writers and which of them every entry point restores or replaces',
 'C31': 'the same abstract interpretation: provenance of character pointers (terminated or bounded by a length) at every call that needs a terminated string',
 'C32': 'path-sensitive tables: for every scheme the kind of listener and channel that is created on the paths where it was recognised, compared between both roles; provenance of remote endpoints and of addresses in URIs, must-consult rule for the access rules on every path a network scheme can take',
 'C20': 'path-sensitive analysis of every lookup, registration and removal: facts about the content of each index that hold where a result is returned, an error raised or an index changed',
})
