"""S01-S06: system time tools (text, calendar, clock)"""
from vsa import dom, libc
from vsa.dom import add, sub, scale
from vsa.run import check
from vsa.engine import Ptr

F = dom.F
MARCH = tuple((153 * m + 2) // 5 for m in range(12))       # days before a month, in years that start in March
LEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def some_date(eng, st, a, ins, nm):
    """any date of the years 1970..9999 in the proleptic Gregorian calendar (stated over years that
    start in March) and its distance to the epoch; one weekday per month"""
    mon = st.choose(12, "month")
    if mon == 1 and st.choose(2, "February 29"):
        if st.choose(2, "century"):
            y = scale(st.fresh("quadricentury", 5, 24), 400)
        else:
            c = add(scale(st.fresh("quadricentury", 4, 24), 4), st.choose(4, "century of four"))
            y = add(scale(c, 100), scale(st.fresh("quad", 1, 24), 4))
            st.cs.assume(("ge", sub(y, 1970)))
        d = 29
    else:
        y = st.fresh("year", 1970, 9999)
        d = st.fresh("mday", 1, LEN[mon])
    h = st.fresh("hour", 0, 23)
    mi = st.fresh("min", 0, 59)
    s = st.fresh("sec", 0, 59)
    m = (mon + 10) % 12                        # March is 0
    yy = y if mon >= 2 else sub(y, 1)
    days = add(scale(yy, 365), sub(add(st.cs.div(yy, 4, True), st.cs.div(yy, 400, True)), st.cs.div(yy, 100, True)))
    days = sub(add(days, add(MARCH[m], d)), 719469)
    t = add(scale(days, 86400), add(scale(h, 3600), add(scale(mi, 60), s)))
    st.ghost["civil"] = (t, s, mi, h, d, mon, sub(y, 1900))
    return t


def civil(eng, st, a, ins, nm):
    """gmtime_r of the date chosen; of any other time, the date at that distance"""
    t = libc.snum(eng, st, eng.load(st, a[0], 8), 64)
    c = st.ghost["civil"]
    p = a[1]
    eng.check(st, p, 56, nm)
    if st.truth(("eq", dom.toF(sub(t, c[0])))):
        f = c[1:]
    else:
        t2 = some_date(eng, st, a, ins, nm)
        st.cs.assume(("eq", dom.toF(sub(t, t2))))
        f = st.ghost["civil"][1:]
        st.ghost["civil"] = c
    for off, v in zip((0, 4, 8, 12, 16, 20), f):
        eng.store(st, Ptr(p.r, add(p.o, off)), 4, v, nm)
    for off, v in ((24, f[4] * 5 % 7), (28, st.fresh("yday", 0, 365)), (32, 0), (36, 0)):
        eng.store(st, Ptr(p.r, add(p.o, off)), 4, v, nm)
    eng.store(st, Ptr(p.r, add(p.o, 40)), 8, 0, nm)
    z = st.region("tzname", 8, "static", "str", const=True, meta={"L": 3})
    eng.store(st, Ptr(p.r, add(p.o, 48)), 8, Ptr(z.id, 0), nm)
    return p


CIVIL = {"gmtime_r": civil, "vf_civil": some_date}


def some_day(eng, st, a, ins, nm):
    """gmtime_r for the years 0..9999, one month and weekday (the offset's text does not depend on them)"""
    p = a[1]
    eng.check(st, p, 56, nm)
    for off, n, lo, hi in ((0, "sec", 0, 60), (4, "min", 0, 59), (8, "hour", 0, 23), (12, "mday", 1, 31), (20, "year", -900, 8099)):
        eng.store(st, Ptr(p.r, add(p.o, off)), 4, st.fresh(n, lo, hi), nm)
    for off, v in ((16, 8), (24, 3), (28, 0), (32, 0), (36, 0)):
        eng.store(st, Ptr(p.r, add(p.o, off)), 4, v, nm)
    eng.store(st, Ptr(p.r, add(p.o, 40)), 8, 0, nm)
    z = st.region("tzname", 8, "static", "str", const=True, meta={"L": 3})
    eng.store(st, Ptr(p.r, add(p.o, 48)), 8, Ptr(z.id, 0), nm)
    return p


MANY = {"max_paths": 150000}


def g(ctx, *es, **kw):
    p = ctx.prog(harness=("systime.c",), sroa=kw.pop("sroa", True))
    for e in es:
        ctx.add(p, e, **kw)


def positive(eng, st, a, ins, nm):
    """numbers without a sign (the signed ones are covered by s02_parse)"""
    v = libc.M[nm](eng, st, a, ins, nm)
    st.cs.assume(("ge", dom.toF(libc.snum(eng, st, v, 64))))
    return v


POSITIVE = {n: positive for n in libc.M if n.endswith("strtol")}
PARTS = range(5)


def each(ctx, e, *args, **kw):
    for k in PARTS:
        g(ctx, e, args=args + (k,), label="%s(%s)" % (e, ",".join(map(str, args + (k,)))), cfg=MANY, **kw)


@check("S01")
def s01(ctx):
    each(ctx, "s01_parse")
    g(ctx, "s01_from_tm")
    each(ctx, "s01_ctx", 2)
    for k in range(2):
        g(ctx, "s01_ctx", args=(k, -1), label="s01_ctx(%d)" % k, cfg=MANY)


@check("S02")
def s02(ctx):
    each(ctx, "s02_parse", sroa=False)
    each(ctx, "s02_shape", models=POSITIVE)
    for k in range(23):
        g(ctx, "s02_field", args=(k,), label="s02_field(%d)" % k, cfg={"exact_num": True, "max_paths": 60000})
    g(ctx, "s02_null")


@check("S03")
def s03(ctx):
    for have in range(4):
        for what in (1, 2, 3):
            if (have, what) != (0, 3):
                g(ctx, "s03_step", args=(have, what, -1), label="s03_step(%d,%d)" % (have, what), cfg=MANY)
    each(ctx, "s03_step", 0, 3)
    g(ctx, "s03_orders", "s03_null")


@check("S04")
def s04(ctx):
    for f in range(4):
        g(ctx, "s04_any", args=(f,), label="s04_any(%d)" % f)
    for f in range(3):
        for room in (0, 1, 2, 5, 8, 13, 19, 20, 24, 25, 28, 31, 32):
            g(ctx, "s04_text", args=(f, room), label="s04_text(%d,%d)" % (f, room), cfg={"exact_fmt": True},
              models={"gmtime_r": some_day})
    g(ctx, "s04_null", "s04_to_tm")


@check("S05")
def s05(ctx):
    for f in range(3):
        g(ctx, "s05_trip", args=(f,), label="s05_trip(%d)" % f, cfg={"exact_fmt": True},
          models=CIVIL)
    g(ctx, "s05_tm", models=CIVIL)


@check("S06")
def s06(ctx):
    g(ctx, "s06_set", "s06_get", "s06_from_tm")

@check("S07")
def s07(ctx):
    num = {"exact_num": True, "max_paths": 60000}
    for form in range(6):
        for zone in range(6):
            g(ctx, "s07_parse", args=(form, zone), label="s07_parse(%d,%d)" % (form, zone), cfg=num)
        g(ctx, "s07_any", args=(form,), label="s07_any(%d)" % form, cfg=num)
    for zone in range(6):
        g(ctx, "s07_hour", args=(zone,), label="s07_hour(%d)" % zone, cfg=num)
