from .numeric import *
def check(ctx, tier):
    ctx.rule('terminated', 'a pointer into a text whose end is given by its length is never passed on without this length')
    decide(ctx, 'C31', ('reader', 'serializer', 'text', 'json', 'shallow'))
    ctx.need('terminated', 20)
