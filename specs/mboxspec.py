from vsa.run import check


def g(ctx, *es, **kw):
    p = ctx.prog(harness=("mbox.c",))
    for e in es:
        ctx.add(p, e, **kw)


@check("M01")
def m01(ctx):
    g(ctx, "m01_new", "m01_null")


@check("M02")
def m02(ctx):
    g(ctx, "m02_push", "m02_peek", "m02_block", "m02_null", cfg={"atomic_read": True})


@check("B01")
def b01(ctx):
    g(ctx, "b01_cloexec", "b01_flags", "b01_has")


@check("G04")
def g04(ctx):
    g(ctx, "g04_u8", "g04_i32", "g04_u32", "g04_i64", "g04_u64", "g04_once")
