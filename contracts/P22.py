from .common import *
P = 'P22'



def result_frame(c, fires, out, st, t, h, mark):
    c.ensures('the operation is called exactly once when due and not at all otherwise', eq(out.new(0), out[0] + If(fires, 1, 0)))
    c.ensures('the operation receives the particle system itself and the step size',
              band(eq(out.new(1), If(fires, h, out[1])), eq(out.new(2), If(fires, mark, out[2])), eq(out.new(3), If(fires, t, out[3]))))
    c.ensures('the slice changes nothing in the particle system', band(eq(st.new(4), If(fires, 2 * mark + 1, mark)), eq(st.new(5), t)))


for kind in 'vb':
    c = Contract(P, 'callbacks', 'h_time_' + kind, 'TimeSlice call' + (' (bool)' if kind == 'b' else ''))
    ot, end, iv, t, h, mark = [c.real(x) for x in ('ot', 'end', 'iv', 't', 'h', 'mark')]
    out, st = c.arr('out', 4), c.arr('st', 6)
    fires = band(le(ot, t), le(t, end))
    result_frame(c, fires, out, st, t, h, mark)
    c.ensures('firing schedules the following instant one interval later', eq(st.new(0), If(fires, ot + iv, ot)))
    c.ensures('end and interval are kept', band(eq(st.new(1), end), eq(st.new(2), iv)))
    if kind == 'b':
        c.ensures('returns the value of the operation, or false', eq(c.result('I'), If(band(fires, gt(h, t)), I(1), I(0))))

    c = Contract(P, 'callbacks', 'h_log_' + kind, 'LogTimeSlice call' + (' (bool)' if kind == 'b' else ''), opts={'inv': lambda v: [le(x, y) for x in v.R for y in v.R0] + [le(x, rvar('t')) for x in v.R]})
    ot, start, end, iv, t, h, mark = [c.real(x) for x in ('ot', 'start', 'end', 'iv', 't', 'h', 'mark')]
    out, st = c.arr('out', 4), c.arr('st', 6)
    c.requires(lt(start, ot))
    c.requires(gt(iv, 1))
    fires = band(le(ot, t), le(t, end))
    result_frame(c, fires, out, st, t, h, mark)
    prev = (st.new(0) - start) / iv + start
    c.ensures('instants are spaced geometrically: firing schedules the first instant of the sequence after the current time',
              band(lt(t, st.new(0)), le(prev, t)), guard=fires)
    c.ensures('nothing is rescheduled otherwise', eq(st.new(0), ot), guard=bnot(fires))
    c.ensures('start, end and ratio are kept', band(eq(st.new(1), end), eq(st.new(2), iv), eq(st.new(3), start)))
    if kind == 'b':
        c.ensures('returns the value of the operation, or false', eq(c.result('I'), If(band(fires, gt(h, t)), I(1), I(0))))

    c = Contract(P, 'callbacks', 'h_step_' + kind, 'StepSlice call' + (' (bool)' if kind == 'b' else ''))
    step, iv = c.int('step'), c.int('iv')
    t, h, mark = [c.real(x) for x in ('t', 'h', 'mark')]
    out, st = c.arr('out', 4), c.arr('st', 6)
    if kind == 'b':
        r = c.arr('r', 1)
    c.requires(le(I(1), iv))
    c.requires(le(I(0), step))
    fires = eq(irem(step, iv), I(0))
    result_frame(c, fires, out, st, t, h, mark)
    c.ensures('every call counts', eq(c.result('I'), step + 1))
    if kind == 'b':
        c.ensures('returns the value of the operation, or false', eq(r.new(0), If(band(fires, gt(h, t)), 1, 0)))

c = Contract(P, 'callbacks', 'h_time_ctor', 'TimeSlice construction and reset')
s, e, n, s2, e2, n2 = c.real('start'), c.real('end'), c.int('num'), c.real('start2'), c.real('end2'), c.int('num2')
st = c.arr('st', 12)
c.requires(le(I(1), n)); c.requires(le(I(1), n2)); c.requires(le(s, e)); c.requires(le(s2, e2))
for k, (a, b, m) in enumerate([(s, e, n), (s2, e2, n2)]):
    what = 'reset' if k else 'construction'
    c.ensures(what + ': first instant is the start', eq(st.new(6 * k), a))
    c.ensures(what + ': end', eq(st.new(6 * k + 1), b))
    c.ensures(what + ': the interval divides the duration', eq(st.new(6 * k + 2), (b - a) / i2r(m)))

c = Contract(P, 'callbacks', 'h_log_ctor', 'LogTimeSlice construction and reset')
s, e, n, s2, e2, n2 = c.real('start'), c.real('end'), c.int('num'), c.real('start2'), c.real('end2'), c.int('num2')
st = c.arr('st', 12)
c.requires(le(I(1), n)); c.requires(le(I(1), n2)); c.requires(le(s, e)); c.requires(le(s2, e2))
for k, (a, b, m) in enumerate([(s, e, n), (s2, e2, n2)]):
    what = 'reset' if k else 'construction'
    q = fn('pow', b - a, 1 / i2r(m))
    c.ensures(what + ': ratio is the num-th root of the duration', eq(st.new(6 * k + 2), q))
    c.ensures(what + ': the first instant is one ratio after the start', eq(st.new(6 * k), a + q))
    c.ensures(what + ': end', eq(st.new(6 * k + 1), b))
    c.ensures(what + ': the sequence is anchored at the start', eq(st.new(6 * k + 3), a))

c = Contract(P, 'callbacks', 'h_step_ctor', 'StepSlice construction and reset')
iv, iv2 = c.int('iv'), c.int('iv2')
st = c.iarr('st', 4, mode='inout')
c.ensures('construction: counting starts at zero with the given interval', band(eq(st.new(0), I(0)), eq(st.new(1), iv)))
c.ensures('reset: counting starts at zero with the given interval', band(eq(st.new(2), I(0)), eq(st.new(3), iv2)))

# whole histories of calls
c = Contract(P, 'callbacks', 'h_step_run', 'StepSlice over a whole run')
n, iv = c.int('n'), c.int('iv')
lg = c.arr('log', n)
c.requires(le(I(1), iv))
i = c.skolem('i', 0, n)
c.ensures('call i fires exactly when i is a multiple of the interval', eq(lg.new(i), If(eq(irem(i, iv), I(0)), 1, 0)))

c = Contract(P, 'callbacks', 'h_time_run', 'TimeSlice over a whole run',
             opts={'inv': lambda v: [eq(v.mem('st', 0), rvar('ot') + v.mem('out', 0) * rvar('iv'))] + [eq(x, rvar('ot') + v.mem('out', 0) * rvar('iv')) for x in v.R]})
n = c.int('n')
t = c.arr('t', n)
ot, end, iv = c.real('ot'), c.real('end'), c.real('iv')
out, st = c.arr('out', 4), c.arr('st', 6)
c.requires(eq(out[0], 0))
c.ensures('the k-th call happens at the k-th scheduled instant: the next instant is start + calls * interval', eq(st.new(0), ot + out.new(0) * iv))
