from .numeric import *
RULES = {'read': 'memory is read within the bounds of the input, literal, text or object it belongs to', 'write': 'memory is written within the bounds of the object it belongs to',
         'range': 'ranges and views are formed within the bounds of what they belong to', 'cursor': 'the read position never leaves the input', 'view': 'views are only shortened by what they have',
         'index': 'subscripts of texts are within their length', 'terminated': 'nothing that needs a terminated string gets a pointer into the input', 'document': 'the current value of a JSON document is only used where it is known not to be the end of an array or object', 'empty': 'the first or last character is only taken of texts that are not empty'}
def check(ctx, tier):
    for k, t in RULES.items(): ctx.rule(k, t)
    decide(ctx, 'C21', ('reader', 'serializer', 'text', 'json'))
    for r, n in (('read', 4), ('write', 2), ('range', 6), ('cursor', 3), ('empty', 2)): ctx.need(r, n)
