NA.update({
 'N01': 'Equality of a value with its decoded encoding quantifies over all values of all types and formats (floating point printing included); no static argument in reach bounds it. C23 decides the structural part.',
 'N02': 'Convergence is a global property of all interleavings of several processes and message queues; the per-node obligations are C06-C13, the composition is a model checking question.',
 'N03': 'Timing is a run-time quantity of the event loop and the clock; no static argument bounds it.',
 'N04': 'Numeric exactness of date arithmetic over all values is arithmetic inside strtod/date library code; no static argument in reach.',
 'N05': 'Memory and latency under load depend on run-time rates; no static bound exists in the design.',
})
