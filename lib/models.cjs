'use strict';
// Abstract models of the platform (Vue reactivity, collections, promises, timers, a few library helpers).
// model(I, st, args, node, {recv,name,thisv,env}) -> outcomes, or null to fall back to an opaque call.
const A = () => require('./absint.cjs');
const one = (s, v) => [{ s, v }];

function callCb(I, cb, args, st, node) {
    return I.invoke(cb, A().U, args, st, node, {});
}
const isFn = (v) => v && (v.k === 'fn' || v.k === 'native');

// ---------------------------------------------------------------- arrays
function knownElems(I, st, v) {
    const e = I.elements(st, v);
    return e && e.length <= (I.cfg.maxUnroll || I.cfg.each || 12) ? e : null;
}
// runs the callback for an unknown element; returns outcomes (v = callback result), plus skip state when effects happened
function iterUnknown(I, st, recv, cb, node, extraArgs) {
    const { Sym, keyOf } = A();
    const e = I.elemOf(recv);
    const idx = Sym(`${keyOf(recv)}[i]`, { idxOf: recv });
    const skip = st.clone();
    const outs = callCb(I, cb, [...(extraArgs || []), e, idx, recv], st, node);
    // objects built by the callback stay reachable through the representative element
    for (const o of outs)
        o.s.live.each((k, v) => {
            if (!I.getCell(skip, k)) skip.live.set(k, v);
        });
    return { skip, outs };
}
function sameEffects(a, b) {
    return a.ver === b.ver && a.ev === b.ev;
}
function arrayMethod(name) {
    return function (I, st, args, node, info) {
        const { Sym, Lit, U, TRUE, FALSE, keyOf, not } = A();
        let recv = info.recv;
        const cb = args[0];
        const cell = recv.k === 'arr' ? I.getCell(st, recv.id) : null;
        const elems = recv.k === 'arr' ? knownElems(I, st, recv) : null;
        const rk = () => `${keyOf(recv)}.${name}(${args.map(keyOf).join(',')})${cell && cell.mutated ? '@' + st.ver : ''}`;
        const meta = { call: { fk: `${keyOf(recv)}.${name}`, name, recv, args } };
        const put = (s, es) => I.setCell(s, recv.id, { ...I.getCell(s, recv.id), elems: es, key: `arr#${recv.id}`, mutated: true });
        const mutEvent = () => I.event(st, { t: 'mutate', target: recv, key: keyOf(recv), name, args, node });
        switch (name) {
            case 'push':
            case 'unshift':
                mutEvent();
                if (recv.k === 'arr') put(st, cell.elems && cell.elems.length < 16 ? (name === 'push' ? [...cell.elems, ...args] : [...args, ...cell.elems]) : null);
                return one(st, Sym(rk()));
            case 'pop':
            case 'shift': {
                mutEvent();
                let v = Sym(`${keyOf(recv)}.${name}@${st.ver}`, { elemOf: recv });
                if (recv.k === 'arr' && elems) {
                    v = (name === 'pop' ? elems[elems.length - 1] : elems[0]) || U;
                    put(st, name === 'pop' ? elems.slice(0, -1) : elems.slice(1));
                } else if (recv.k === 'arr') put(st, null);
                return one(st, v);
            }
            case 'splice': {
                mutEvent();
                if (recv.k === 'arr') {
                    if (elems && args.every((a) => a.k === 'lit')) {
                        const es = elems.slice();
                        const rem = es.splice(args[0] ? args[0].v : 0, args[1] ? args[1].v : es.length, ...args.slice(2));
                        put(st, es);
                        return one(st, I.mkArr(st, rem));
                    }
                    put(st, null);
                }
                return one(st, Sym(rk() + '@' + st.ver, { nonnull: true }));
            }
            case 'sort':
            case 'reverse':
            case 'fill':
                mutEvent();
                if (name === 'sort' && recv.k === 'arr' && elems && elems.length <= 5 && isFn(cb)) {
                    // stable insertion by what the comparator answers
                    const insert = (s0, done, x, i) => {
                        if (i === 0) return [{ s: s0, v: [x, ...done] }];
                        return I.bind(callCb(I, cb, [done[i - 1], x], s0, node), (s1, r) => {
                            const fork = I.truth(s1, I.compare(s1, '>', r, Lit(0)));
                            const out = fork.t ? insert(fork.t, done, x, i - 1) : [];
                            if (fork.f) out.push({ s: fork.f, v: [...done.slice(0, i), x, ...done.slice(i)] });
                            return out;
                        });
                    };
                    let outs = [{ s: st, v: [] }];
                    for (const x of elems) outs = I.bind(outs, (s1, done) => insert(s1, done, x, done.length));
                    return I.bind(outs, (s1, es) => {
                        put(s1, es);
                        return one(s1, recv);
                    });
                }
                if (recv.k === 'arr') {
                    if (name === 'reverse' && elems) put(st, elems.slice().reverse());
                    else {
                        put(st, null);
                        // the same elements in another order
                        if (I.cfg.joinText && cell && cell.elems) st.live.set(recv.id, { ...I.getCell(st, recv.id), was: cell.elems });
                    }
                }
                if (isFn(cb)) {
                    const probe = st.clone();
                    const a = Sym(`${keyOf(recv)}[a]`, { elemOf: recv }), b = Sym(`${keyOf(recv)}[b]`, { elemOf: recv });
                    callCb(I, cb, [a, b], probe, node);
                }
                return one(st, recv.k === 'arr' ? recv : Sym(rk(), { ...meta, nonnull: true, derived: recv }));
            case 'slice':
                if (elems && args.every((a) => a.k === 'lit')) return one(st, I.mkArr(st, elems.slice(...args.map((a) => a.v))));
                return one(st, Sym(rk(), { ...meta, nonnull: true, derived: recv, elem: recv.elem || (cell && cell.elem) }));
            case 'concat':
                // like a list literal spreading its parts
                if (cell || recv.k === 'sym') {
                    const spread = (a) => {
                        const c = a.k === 'arr' ? I.getCell(st, a.id) : null;
                        return c && c.elems ? c.elems : [{ ...Sym(`...${keyOf(a)}`), spreadOf: a }];
                    };
                    if (args.every((a) => a.k !== 'torefs' && a.k !== 'ns')) return one(st, I.mkArr(st, [...spread(recv), ...args.flatMap((a) => (a.k === 'arr' || a.k === 'sym' ? spread(a) : [a]))]));
                }
                return one(st, Sym(rk(), { ...meta, nonnull: true }));
            case 'at':
                if (elems && args[0] && args[0].k === 'lit') return one(st, elems.at(args[0].v) || U);
                return one(st, Sym(rk(), { ...meta, elemOf: recv }));
            case 'join':
                if (elems && elems.every((e) => e.k === 'lit') && (!args[0] || args[0].k === 'lit')) return one(st, Lit(elems.map((e) => e.v).join(args[0] ? args[0].v : ',')));
                if (elems && I.cfg.joinText && elems.every((e) => e.k === 'lit' || e.k === 'sym') && (!args[0] || args[0].k === 'lit')) {
                    const nothing = (e) => e.k === 'lit' && (e.v === undefined || e.v === null);
                    return one(st, I.concat(elems.flatMap((e, i) => [...(i ? [Lit(args[0] ? args[0].v : ',')] : []), nothing(e) ? Lit('') : e])));
                }
                return one(st, Sym(rk(), { ...meta }));
            case 'includes':
                if (elems && args[0]) {
                    const n = I.norm(st, args[0]);
                    if (elems.some((e) => keyOf(e) === keyOf(n))) return one(st, TRUE);
                    if (!elems.length || (n.k === 'lit' && elems.every((e) => e.k === 'lit'))) return one(st, FALSE);
                    if (elems.length <= 16) {
                        const d = place(I, st, elems, n);
                        if (d !== undefined) return one(st, d < 0 ? FALSE : TRUE);
                    }
                    if (elems.length && elems.length <= 12 && elems.every((e) => e.k === 'lit') && I.cfg.forkIncludes !== false) {
                        // decide by equality so later comparisons agree
                        const out = [];
                        let cur = st;
                        for (const e of elems) {
                            const t = I.truth(cur, I.strictEq(cur, n, e));
                            if (t.t) out.push({ s: t.t, v: TRUE });
                            if (!t.f) {
                                cur = null;
                                break;
                            }
                            cur = t.f;
                        }
                        if (cur) out.push({ s: cur, v: FALSE });
                        return out;
                    }
                }
                return one(st, Sym(rk(), { ...meta, isBool: true }));
            case 'indexOf':
                if (elems && args.length === 1 && elems.length <= 16) {
                    const d = place(I, st, elems, I.norm(st, args[0]));
                    if (d !== undefined) return one(st, Lit(d));
                }
                return one(st, Sym(rk(), { ...meta }));
            case 'lastIndexOf':
                return one(st, Sym(rk(), { ...meta }));
            case 'flat':
                return one(st, Sym(rk(), { ...meta, nonnull: true, derived: recv }));
            case 'keys':
            case 'values':
            case 'entries':
                if (name === 'values') return one(st, recv);
                return one(st, Sym(rk(), { ...meta, nonnull: true, derived: recv }));
        }
        if (!isFn(cb)) {
            if (['map', 'filter', 'flatMap'].includes(name)) return one(st, Sym(rk(), { ...meta, nonnull: true, derived: recv }));
            return null;
        }
        if (elems && name !== 'reduce' && name !== 'reduceRight') {
            let outs = [{ s: st, v: [] }];
            const done = [];
            elems.forEach((e, i) => {
                outs = I.bind(outs, (s, acc) =>
                    I.bind(callCb(I, cb, [e, Lit(i), recv], s, node), (s2, v) => {
                        if (name === 'forEach') return [{ s: s2, v: acc }];
                        if (name === 'map') return [{ s: s2, v: [...acc, v] }];
                        if (name === 'flatMap') {
                            const es = v.k === 'arr' ? knownElems(I, s2, v) : null;
                            return [{ s: s2, v: [...acc, ...(es || [v])] }];
                        }
                        const t = I.truth(s2, v);
                        const r = [];
                        if (name === 'filter') {
                            if (t.t) r.push({ s: t.t, v: [...acc, e] });
                            if (t.f) r.push({ s: t.f, v: acc });
                        } else {
                            const hit = { some: TRUE, every: FALSE, find: e, findLast: e, findIndex: Lit(i), findLastIndex: Lit(i) }[name];
                            const stop = name === 'every' ? t.f : t.t;
                            const go = name === 'every' ? t.t : t.f;
                            if (stop) done.push({ s: stop, v: hit });
                            if (go) r.push({ s: go, v: acc });
                        }
                        return r;
                    }),
                );
                if (outs.length > I.soft && name === 'forEach') outs = I.compact(outs.map((o) => ({ ...o, v: o.c ? o.v : A().U }))).map((o) => (o.c ? o : { ...o, v: [] }));
            });
            const fin = I.bind(outs, (s, acc) => {
                switch (name) {
                    case 'forEach':
                        return one(s, U);
                    case 'map':
                    case 'filter':
                    case 'flatMap':
                        return one(s, I.mkArr(s, acc));
                    case 'some':
                        return one(s, FALSE);
                    case 'every':
                        return one(s, TRUE);
                    case 'find':
                    case 'findLast':
                        return one(s, U);
                    default:
                        return one(s, Lit(-1));
                }
            });
            return I.compact([...done, ...fin]);
        }
        if (name === 'reduce' || name === 'reduceRight') {
            const init = args[1];
            if (elems && elems.length <= 6) {
                let outs = [{ s: st, v: init || elems[0] || U }];
                (init ? elems : elems.slice(1)).forEach((e, i) => {
                    outs = I.compact(I.bind(outs, (s, acc) => callCb(I, cb, [acc, e, Lit(i), recv], s, node)));
                });
                return outs;
            }
            const key = rk();
            const acc = init && (init.k === 'obj' || init.k === 'arr' || init.k === 'map') ? init : Sym(`acc(${key})`);
            const { skip, outs } = iterUnknown(I, st, recv, cb, node, [acc]);
            const out = outs.map((o) => (o.c ? o : { s: o.s, v: init && o.v && (o.v.k === 'obj' || o.v.k === 'arr' || o.v.k === 'map') ? o.v : Sym(key, { ...meta, reduced: o.v }) }));
            if (init && init.k === 'obj') {
                for (const o of out) if (!o.c && o.v.k === 'obj') {
                    const c = I.getCell(o.s, o.v.id);
                    o.s.live.set(o.v.id, { ...c, open: true });
                }
            }
            if (init && !recv.iterated) out.push({ s: skip, v: init });
            return I.compact(out);
        }
        if (name === 'forEach' && cell && cell.elems && cell.elems.some((e) => e.spreadOf)) {
            // known elements run in order, unknown parts zero or one time
            let outs = [{ s: st, v: U }];
            for (const e of cell.elems)
                outs = I.compact(
                    I.bind(outs, (s) => {
                        if (!e.spreadOf) return callCb(I, cb, [e, Sym(`${keyOf(recv)}[i]`, { idxOf: recv }), recv], s, node).map((o) => (o.c ? o : { s: o.s, v: U }));
                        const r = iterUnknown(I, s, e.spreadOf, cb, node);
                        return [{ s: r.skip, v: U }, ...r.outs.filter((o) => o.c || !sameEffects(o.s, r.skip)).map((o) => (o.c ? o : { s: o.s, v: U }))];
                    }),
                );
            return outs;
        }
        if (['some', 'every', 'map', 'filter'].includes(name) && cell && cell.elems && cell.elems.some((e) => e.spreadOf)) {
            // known elements one by one, unknown parts as a whole
            let outs = [{ s: st, v: [] }];
            const done = [];
            cell.elems.forEach((e) => {
                outs = I.compact(
                    I.bind(outs, (s, acc) => {
                        if (e.spreadOf) {
                            const m = I.models.get('Array#' + name) || I.models.get('#' + name);
                            return I.bind(m(I, s, args, node, { ...info, recv: e.spreadOf }), (s2, v) => [{ s: s2, v: [...acc, { ...Sym(`...${keyOf(v)}`), spreadOf: v, quant: v }] }]);
                        }
                        return I.bind(callCb(I, cb, [e, Sym(`${keyOf(recv)}[i]`, { idxOf: recv }), recv], s, node), (s2, v) => {
                            if (name === 'map') return [{ s: s2, v: [...acc, v] }];
                            const t = I.truth(s2, v);
                            const r = [];
                            if (name === 'filter') {
                                if (t.t) r.push({ s: t.t, v: [...acc, e] });
                                if (t.f) r.push({ s: t.f, v: acc });
                                return r;
                            }
                            const stop = name === 'every' ? t.f : t.t;
                            const go = name === 'every' ? t.t : t.f;
                            if (stop) done.push({ s: stop, v: name === 'every' ? FALSE : TRUE });
                            if (go) r.push({ s: go, v: acc });
                            return r;
                        });
                    }).map((o) => (o.c ? o : { ...o, v: o.v.k ? o.v : { k: 'list', list: o.v } })),
                ).map((o) => (o.c ? o : { ...o, v: o.v.k === 'list' ? o.v.list : o.v }));
            });
            const fin = I.bind(outs, (s, acc) => (name === 'map' || name === 'filter' ? one(s, I.mkArr(s, acc)) : one(s, Sym(rk(), { ...meta, isBool: true }))));
            return I.compact([...done, ...fin]);
        }
        if (!['forEach', 'map', 'filter', 'some', 'every', 'find', 'findIndex', 'findLast', 'findLastIndex', 'flatMap'].includes(name)) return null;
        // unknown collection: representative element, zero or one iteration
        const key = rk();
        const { skip, outs } = iterUnknown(I, st, recv, cb, node);
        const eff = outs.filter((o) => o.c || !sameEffects(o.s, skip));
        const all = outs.filter((o) => !o.c).map((o) => o.v);
        const result = (s, o) => {
            // a path that shows an iteration carries that iteration's value
            const vals = o && name === 'map' ? [o.v] : all;
            const derivedElem = name === 'map' && vals.length === 1 ? vals[0] : undefined;
            switch (name) {
                case 'forEach':
                    return U;
                case 'map':
                    return Sym(key, { ...meta, nonnull: true, derived: recv, elem: derivedElem, cbVals: vals, lenOf: recv, iterated: !!o });
                case 'flatMap':
                    return Sym(key, { ...meta, nonnull: true, derived: recv, cbVals: vals });
                case 'filter':
                    return Sym(key, { ...meta, nonnull: true, derived: recv, elem: recv.elem, tested: all });
                case 'some':
                case 'every':
                    return Sym(key, { ...meta, isBool: true, quant: { name, recv, vals } });
                case 'find':
                case 'findLast':
                    return Sym(key, { ...meta, elemOf: recv, found: true, tested: all });
                default:
                    return Sym(key, { ...meta, tested: all });
            }
        };
        const out = [{ s: skip, v: result(skip) }];
        for (const o of eff) out.push(o.c ? o : { s: o.s, v: result(o.s, o) });
        return I.compact(out);
    };
}
const M = {};
// place of a value in a list when every comparison up to it is decided
function place(I, st, elems, v) {
    for (let i = 0; i < elems.length; i++) {
        if (elems[i].spreadOf) return undefined;
        const t = I.truth(st.clone(), I.strictEq(st, v, elems[i]));
        if (t.t && t.f) return undefined;
        if (t.t) return i;
    }
    return -1;
}
const ARRAY = ['push', 'unshift', 'pop', 'shift', 'splice', 'sort', 'reverse', 'fill', 'slice', 'concat', 'at', 'join', 'includes', 'indexOf', 'lastIndexOf', 'flat', 'keys', 'values', 'entries', 'forEach', 'map', 'filter', 'some', 'every', 'find', 'findIndex', 'findLast', 'findLastIndex', 'flatMap', 'reduce', 'reduceRight'];
for (const n of ARRAY) {
    M['Array#' + n] = arrayMethod(n);
}
// the same methods on opaque receivers
for (const n of ['push', 'unshift', 'pop', 'shift', 'splice', 'sort', 'reverse', 'forEach', 'map', 'filter', 'some', 'every', 'find', 'findIndex', 'findLast', 'flatMap', 'reduce', 'slice', 'includes']) {
    M['#' + n] = (I, st, args, node, info) => {
        if (!info.recv || info.recv.k !== 'sym') return null;
        if (info.recv.key.startsWith('global:') || info.recv.key.startsWith('import:')) return null;
        if (n === 'slice' || n === 'includes') return null;
        return arrayMethod(n)(I, st, args, node, info);
    };
}

// ---------------------------------------------------------------- Map / Set
function mapCtor(kind) {
    return (I, st, args, node) => {
        const id = I.alloc(st, { t: 'map', kind, entries: new Map(), unknown: args.length > 0 && !(args[0].k === 'lit') });
        const v = { k: 'map', id, kind };
        if (args[0]) {
            const es = I.elements(st, args[0]);
            if (es) {
                const c = I.getCell(st, id);
                const entries = new Map();
                for (const e of es) {
                    if (kind === 'Set') entries.set(A().keyOf(e), e);
                    else {
                        const pe = I.elements(st, e);
                        if (pe) entries.set(A().keyOf(pe[0]), pe[1]);
                    }
                }
                st.live.set(id, { ...c, entries, unknown: false });
            }
        }
        return one(st, v);
    };
}
M['new global:Map'] = mapCtor('Map');
M['new global:WeakMap'] = mapCtor('Map');
M['new global:Set'] = mapCtor('Set');
M['new global:WeakSet'] = mapCtor('Set');
function mapMethod(name) {
    return (I, st, args, node, info) => {
        const { Sym, TRUE, FALSE, U, keyOf } = A();
        const r = info.recv;
        if (r.k !== 'map') return null;
        const c = I.getCell(st, r.id);
        const nm = I.names.get(r.id) || '';
        const k = args[0] ? keyOf(I.norm(st, args[0])) : '';
        const base = `map:${nm}#${r.id}`;
        switch (name) {
            case 'get':
                if (c.entries.has(k)) return one(st, c.entries.get(k));
                if (!c.unknown) return one(st, U);
                return one(st, Sym(`${base}.get(${k})@${c.mver || 0}`, { mapGet: { map: r, key: args[0] } }));
            case 'has': {
                if (c.entries.has(k)) return one(st, TRUE);
                if (!c.unknown && (I.cfg.distinctKeys || args[0].k === 'lit' || args[0].unique || !c.entries.size)) return one(st, FALSE);
                return one(st, Sym(`${base}.has(${k})@${c.mver || 0}`, { isBool: true }));
            }
            case 'set':
            case 'add': {
                I.event(st, { t: 'mapset', key: base, target: r, name, args, node, v: args[1] });
                I.mapOp(st, r.id, (s) => {
                    const c2 = I.getCell(s, r.id);
                    const entries = new Map(c2.entries);
                    entries.set(k, name === 'set' ? args[1] : args[0]);
                    I.setCell(s, r.id, { ...c2, entries });
                });
                return one(st, r);
            }
            case 'delete': {
                I.event(st, { t: 'mapdelete', key: base, target: r, name, args, node });
                I.mapOp(st, r.id, (s) => {
                    const c2 = I.getCell(s, r.id);
                    const entries = new Map(c2.entries);
                    entries.delete(k);
                    I.setCell(s, r.id, { ...c2, entries, mver: (c2.mver || 0) + 1 });
                });
                return one(st, Sym(`${base}.delete(${k})`));
            }
            case 'clear':
                I.event(st, { t: 'mapclear', key: base, target: r, name, args, node });
                I.mapOp(st, r.id, (s) => I.setCell(s, r.id, { ...I.getCell(s, r.id), entries: new Map(), unknown: false }));
                return one(st, U);
            case 'forEach': {
                if (!isFn(args[0])) return null;
                const skip = st.clone();
                const val = Sym(`${base}[*v]`), kk = Sym(`${base}[*k]`);
                return I.compact([{ s: skip, v: U }, ...callCb(I, args[0], [val, kk, r], st, node)]);
            }
            case 'keys':
            case 'values':
            case 'entries':
                if (name === 'values' && I.cfg.knownSets && !c.unknown) return one(st, I.mkArr(st, [...c.entries.values()]));
                return one(st, Sym(`${base}.${name}()@${st.ver}`, { nonnull: true, mapIter: r }));
        }
        return null;
    };
}
for (const n of ['get', 'has', 'set', 'add', 'delete', 'clear', 'forEach', 'keys', 'values', 'entries']) M['Map#' + n] = mapMethod(n);

// ---------------------------------------------------------------- promises
function promiseChain(name) {
    return (I, st, args, node, info) => I.later(st, () => chain(I, st, args, node, info, name));
}
function chain(I, st, args, node, info, name) {
    {
        const { U } = A();
        const p = info.recv;
        const [ok, bad] = name === 'then' ? [args[0], args[1]] : name === 'catch' ? [null, args[0]] : [args[0], args[0]];
        const wrap = (outs, passThrough) =>
            outs.map((o) => {
                if (o.c === 'throw') return { s: o.s, v: { k: 'promise', rejected: true, v: o.v } };
                if (passThrough) return { s: o.s, v: p };
                return { s: o.s, v: o.v && o.v.k === 'promise' ? o.v : { k: 'promise', v: o.v || U } };
            });
        if (p.rejected) {
            if (isFn(bad)) return wrap(callCb(I, bad, name === 'finally' ? [] : [p.v], st, node), name === 'finally');
            return one(st, p);
        }
        if (isFn(ok)) return wrap(callCb(I, ok, name === 'finally' ? [] : [p.v || U], st, node), name === 'finally');
        return one(st, p);
    }
}
for (const n of ['then', 'catch', 'finally']) M['Promise#' + n] = promiseChain(n);
// promise methods on opaque values
for (const n of ['then', 'catch', 'finally'])
    M['#' + n] = (I, st, args, node, info) => {
        const { Sym, U, keyOf } = A();
        if (!info.recv || info.recv.k !== 'sym') return null;
        if (!args.some(isFn)) return null;
        return I.later(st, () => opaqueChain(I, st, args, node, info, n));
    };
function opaqueChain(I, st, args, node, info, n) {
    {
        const { Sym, U, keyOf } = A();
        const rk = keyOf(info.recv);
        const val = Sym(`await(${rk})`, { awaited: info.recv }), err = Sym(`err(${rk})`, { nonnull: true });
        const out = [];
        const mk = (outs) => outs.map((o) => (o.c === 'throw' ? { s: o.s, v: { k: 'promise', rejected: true, v: o.v } } : { s: o.s, v: o.v && o.v.k === 'promise' ? o.v : { k: 'promise', v: n === 'finally' ? val : o.v || U } }));
        const throws = I.cfg.awaitThrows && I.cfg.awaitThrows(info.recv, node);
        if (n === 'then') {
            const s2 = st.clone();
            if (isFn(args[0])) out.push(...mk(callCb(I, args[0], [val], st, node)));
            if (isFn(args[1])) out.push(...mk(callCb(I, args[1], [err], s2, node)));
            else if (throws) out.push({ s: s2, v: { k: 'promise', rejected: true, v: err } });
        } else if (n === 'catch') {
            const s2 = st.clone();
            out.push({ s: st, v: { k: 'promise', v: val } });
            out.push(...mk(callCb(I, args[0], [err], s2, node)));
        } else {
            const s2 = st.clone();
            out.push(...mk(callCb(I, args[0], [], st, node)));
            if (throws) out.push(...callCb(I, args[0], [], s2, node).map((o) => ({ s: o.s, v: { k: 'promise', rejected: true, v: err } })));
        }
        return I.compact(out);
    }
}
M['new global:Promise'] = (I, st, args, node) => {
    const { Sym, U, fresh } = A();
    const id = fresh();
    const P = { k: 'promise', id, v: Sym(`settled#${id}`) };
    const mk = (kind) => ({
        k: 'native',
        name: kind,
        key: `${kind}#${id}`,
        impl: (I2, s, a, n2) => {
            I2.event(s, { t: 'settle', key: `${kind}#${id}`, promise: id, kind, args: a, node: n2 });
            return one(s, U);
        },
    });
    I.event(st, { t: 'promise', key: `promise#${id}`, promise: id, node, args: [] });
    if (!isFn(args[0])) return one(st, P);
    return callCb(I, args[0], [mk('resolve'), mk('reject')], st, node).map((o) => (o.c === 'throw' ? { s: o.s, v: { k: 'promise', rejected: true, v: o.v } } : { s: o.s, v: P }));
};
M['global:Promise.resolve'] = (I, st, args) => one(st, args[0] && args[0].k === 'promise' ? args[0] : { k: 'promise', v: args[0] || A().U });
M['global:Promise.reject'] = (I, st, args) => one(st, { k: 'promise', rejected: true, v: args[0] || A().U });
M['global:Promise.all'] = (I, st, args, node) => {
    const { Sym, keyOf } = A();
    const es = args[0] && I.elements(st, args[0]);
    if (es) {
        let outs = [{ s: st, v: [] }];
        for (const e of es)
            outs = I.bind(outs, (s, acc) => {
                if (e.k === 'sym' && I.cfg.awaitThrows && I.cfg.awaitThrows(e, node)) {
                    const s2 = s.clone();
                    return [
                        { s, v: [...acc, Sym(`await(${e.key})`, { awaited: e })] },
                        { s: s2, c: 'throw', v: Sym(`err(${e.key})`, { nonnull: true }) },
                    ];
                }
                if (e.k === 'promise') return e.rejected ? [{ s, c: 'throw', v: e.v }] : [{ s, v: [...acc, e.v || A().U] }];
                return [{ s, v: [...acc, e.k === 'sym' ? Sym(`await(${e.key})`, { awaited: e }) : e] }];
            });
        return outs.map((o) => (o.c === 'throw' ? { s: o.s, v: { k: 'promise', rejected: true, v: o.v } } : { s: o.s, v: { k: 'promise', v: I.mkArr(o.s, o.v) } }));
    }
    const src = args[0];
    const vals = src && src.cbVals;
    if (vals && vals.length) {
        const out = [];
        const ok = vals.filter((v) => !(v.k === 'promise' && v.rejected));
        const bad = vals.filter((v) => v.k === 'promise' && v.rejected);
        const inner = ok.length === 1 && ok[0].k === 'promise' ? ok[0].v : undefined;
        if (src.iterated && !ok.length) return one(st, { k: 'promise', rejected: true, v: bad[0].v });
        out.push({ s: st, v: { k: 'promise', v: Sym(`all(${keyOf(src)})`, { nonnull: true, elem: inner, derived: src.derived, iterated: src.iterated }) } });
        if (bad.length) out.push({ s: st.clone(), v: { k: 'promise', rejected: true, v: bad[0].v } });
        return out;
    }
    return one(st, { k: 'promise', v: Sym(`all(${src ? keyOf(src) : ''})`, { nonnull: true, derived: src }) });
};
// requests: decided by the analysis that follows them
M['global:fetch'] = (I, st, args, node) => (I.cfg.fetch ? I.cfg.fetch(I, st, args, node) : null);
M['global:Promise.allSettled'] = (I, st, args) => one(st, { k: 'promise', v: A().Sym(`allSettled(${args[0] ? A().keyOf(args[0]) : ''})`, { nonnull: true }) });

// ---------------------------------------------------------------- functions
M['Function#call'] = (I, st, args, node, info) => I.invoke(info.recv, args[0] || A().U, args.slice(1), st, node);
M['Function#apply'] = (I, st, args, node, info) => {
    const es = args[1] && I.elements(st, args[1]);
    return I.invoke(info.recv, args[0] || A().U, es || (args[1] ? [{ ...A().Sym('...' + A().keyOf(args[1])), spreadOf: args[1] }] : []), st, node);
};
M['Function#bind'] = (I, st, args, node, info) => one(st, { ...info.recv, boundThis: args[0] });

// ---------------------------------------------------------------- Object / JSON / misc globals
const objKeys = (I, st, v) => {
    if (!v || v.k !== 'obj') return null;
    const c = I.getCell(st, v.id);
    if (!c || c.spreads.length || c.open || c.reactive || [...c.props.keys()].some((k) => k.startsWith('['))) return null;
    return c;
};
M['global:Object.keys'] = (I, st, args) => {
    const { Lit, Sym, keyOf } = A();
    const c = objKeys(I, st, args[0]);
    if (c) return one(st, I.mkArr(st, [...c.props.keys()].map(Lit)));
    return one(st, Sym(`Object.keys(${keyOf(args[0])})`, { nonnull: true, keysOf: args[0] }));
};
M['global:Object.values'] = (I, st, args) => {
    const { Sym, keyOf } = A();
    const c = objKeys(I, st, args[0]);
    if (c) return one(st, I.mkArr(st, [...c.props.values()]));
    return one(st, Sym(`Object.values(${keyOf(args[0])})`, { nonnull: true, valuesOf: args[0] }));
};
M['global:Object.entries'] = (I, st, args) => {
    const { Lit, Sym, keyOf } = A();
    const c = objKeys(I, st, args[0]);
    if (c) return one(st, I.mkArr(st, [...c.props].map(([k, v]) => I.mkArr(st, [Lit(k), v]))));
    return one(st, Sym(`Object.entries(${keyOf(args[0])})`, { nonnull: true, entriesOf: args[0] }));
};
M['global:Object.fromEntries'] = (I, st, args) => {
    const { Sym, keyOf } = A();
    const pairs = (I.elements(st, args[0]) || [null]).map((e) => e && I.elements(st, I.norm(st, e)));
    if (pairs.every((p) => p && p.length === 2 && I.norm(st, p[0]).k === 'lit')) return one(st, I.mkObj(st, pairs.map((p) => [String(I.norm(st, p[0]).v), p[1]])));
    return one(st, Sym(`Object.fromEntries(${keyOf(args[0])})`, { nonnull: true, derived: args[0] }));
};
M['global:Object.freeze'] = (I, st, args) => one(st, args[0]);
M['global:Object.assign'] = (I, st, args, node) => {
    const { keyOf } = A();
    const t = args[0];
    if (t.k === 'obj') {
        for (const a of args.slice(1)) I.spreadInto(st, t.id, I.norm(st, a));
        st.ver++;
    }
    I.event(st, { t: 'set', target: t, key: keyOf(t), prop: A().Lit('*'), v: args[1] || A().U, node, args });
    return one(st, t);
};
M['global:Array.isArray'] = (I, st, args) => {
    const { Lit, Sym, keyOf } = A();
    const v = args[0];
    if (v.k === 'arr') return one(st, Lit(true));
    if (v.k !== 'sym') return one(st, Lit(false));
    if (v.derived || v.keysOf) return one(st, Lit(true));
    return one(st, Sym(`isArray(${keyOf(v)})`, { isBool: true, isArrayOf: v.key }));
};
M['global:Array.from'] = (I, st, args, node) => {
    const { Sym, keyOf } = A();
    const v = args[0];
    if (v && v.k === 'obj') {
        // a list of a given length
        const c = I.getCell(st, v.id);
        const len = c && c.props && c.props.get('length');
        if (len) {
            const l = len.k === 'lit' && len.v >= 0 && len.v <= 8 ? I.mkArr(st, Array.from({ length: len.v }, () => A().U)) : Sym(`listOf(${keyOf(len)})`, { nonnull: true, derived: v, elem: A().U, len });
            return isFn(args[1]) ? M['Array#map'](I, st, [args[1]], node, { recv: l, name: 'map' }) : one(st, l);
        }
    }
    const es = v && I.elements(st, v);
    if (es && !args[1]) return one(st, I.mkArr(st, es));
    if (isFn(args[1])) return M['Array#map'](I, st, [args[1]], node, { recv: es ? I.mkArr(st, es) : Sym(`Array.from(${keyOf(v)})`, { nonnull: true, derived: v, elem: v.k === 'obj' ? A().U : v.elem }), name: 'map' });
    return one(st, Sym(`Array.from(${v ? keyOf(v) : ''})`, { nonnull: true, derived: v, elem: v && v.elem }));
};
M['global:Boolean'] = (I, st, args) => {
    const { boolOf, Lit, FALSE } = A();
    const v = args[0] ? I.norm(st, args[0]) : null;
    if (!v) return one(st, FALSE);
    if (v.k === 'lit') return one(st, Lit(Boolean(v.v)));
    if (I.isObj(v)) return one(st, Lit(true));
    return one(st, boolOf(v));
};
M['global:String'] = (I, st, args) => {
    const { Lit, Sym, keyOf } = A();
    const v = args[0] && I.norm(st, args[0]);
    if (!v) return one(st, Lit(''));
    if (v.k === 'lit') return one(st, Lit(String(v.v)));
    if (v.parts) return one(st, v);
    return one(st, Sym(`String(${keyOf(v)})`, { parts: [v] }));
};
M['global:Number'] = (I, st, args) => {
    const { Lit, Sym, keyOf } = A();
    const v = args[0] && I.norm(st, args[0]);
    if (!v) return one(st, Lit(0));
    if (v.k === 'lit') return one(st, Lit(Number(v.v)));
    return one(st, Sym(`Number(${keyOf(v)})`, { numOf: v }));
};
M['global:Symbol'] = (I, st, args) => one(st, A().Sym(`symbol#${A().fresh()}`, { nonnull: true }));
M['global:structuredClone'] = (I, st, args) => one(st, A().Sym(`clone(${A().keyOf(args[0])})`, { nonnull: true }));
for (const [holder, name] of ['Number.isNaN', 'Number.isInteger', 'Number.isFinite', 'Math.ceil', 'Math.floor', 'Math.round', 'Math.trunc', 'Math.abs', 'Math.sign', '.isNaN', '.isFinite', '.parseInt', '.parseFloat'].map((x) => x.split('.')))
    M['global:' + (holder ? holder + '.' : '') + name] = (I, st, args) => {
        const a = args.map((x) => I.norm(st, x));
        if (!a.length || a.some((x) => x.k !== 'lit')) return null;
        return one(st, A().Lit((holder ? globalThis[holder] : globalThis)[name](...a.map((x) => x.v))));
    };
for (const fn of ['max', 'min'])
    M['global:Math.' + fn] = (I, st, args) => {
        const { Lit } = A();
        const a = args.map((x) => I.norm(st, x));
        if (a.every((x) => x.k === 'lit')) return one(st, Lit(Math[fn](...a.map((x) => x.v))));
        return null;
    };
M['global:JSON.stringify'] = (I, st, args) => {
    const { Sym, keyOf } = A();
    return one(st, Sym(`JSON.stringify(${args[0] ? keyOf(args[0]) : ''})`, { nonnull: true, jsonOf: args[0] }));
};
// string methods on literals
for (const n of ['replace', 'replaceAll', 'trim', 'toLowerCase', 'toUpperCase', 'startsWith', 'endsWith', 'split', 'padStart', 'padEnd', 'charAt', 'substring', 'slice', 'includes', 'repeat', 'trimEnd', 'trimStart', 'concat', 'indexOf'])  {
    const prev = M['#' + n];
    M['#' + n] = (I, st, args, node, info) => {
        const { Lit } = A();
        const r = info.recv;
        if (r && r.k === 'lit' && typeof r.v === 'string') {
            const as = args.map((a) => (a.k === 'lit' ? a.v : a.k === 'regex' ? toRe(a) : NaN));
            if (args.every((a) => a.k === 'lit' || (a.k === 'regex' && toRe(a)))) {
                const v = r.v[n](...as);
                if (Array.isArray(v)) return one(st, I.mkArr(st, v.map(Lit)));
                return one(st, Lit(v));
            }
        }
        return prev ? prev(I, st, args, node, info) : null;
    };
}
function toRe(v) {
    const m = v.text.match(/^\/(.*)\/([a-z]*)$/s);
    try {
        return m ? new RegExp(m[1], m[2]) : null;
    } catch {
        return null;
    }
}
M['RegExp#test'] = (I, st, args, node, info) => {
    const { Lit, Sym, keyOf } = A();
    const v = args[0] ? I.norm(st, args[0]) : A().U;
    const re = toRe(info.recv);
    if (v.k === 'lit' && re) return one(st, Lit(re.test(String(v.v))));
    // a pattern without anchors that matches a fixed piece of the text
    if (re && v.parts && !re.global && !re.sticky && !/[\^$]|\\[bB]|\(\?/.test(re.source) && v.parts.some((p) => p.k === 'lit' && re.test(String(p.v)))) return one(st, Lit(true));
    return one(st, Sym(`${info.recv.text}.test(${keyOf(v)})`, { isBool: true, regexTest: { re: info.recv, v } }));
};

// ---------------------------------------------------------------- timers
function timer(kind, handle) {
    return (I, st, args, node) => {
        const { Sym, fresh, U } = A();
        const id = fresh();
        const h = Sym(`${kind}#${id}`, { nonnull: true, timer: kind });
        I.event(st, { t: 'timer', key: kind, handle: h, args, node, v: h });
        if (isFn(args[0])) I.defer(st, args[0], kind, node, []);
        if (st.deferred.length) st.deferred = st.deferred.map((d, i) => (i === st.deferred.length - 1 && !d.handle ? { ...d, handle: h.key } : d));
        return one(st, handle ? h : U);
    };
}
M['global:setTimeout'] = M['global:window.setTimeout'] = timer('setTimeout', true);
M['global:setInterval'] = M['global:window.setInterval'] = timer('setInterval', true);
M['global:requestAnimationFrame'] = M['global:window.requestAnimationFrame'] = timer('requestAnimationFrame', true);
M['global:queueMicrotask'] = timer('queueMicrotask', false);
function clearer(kind) {
    return (I, st, args, node) => {
        I.event(st, { t: 'clear', key: kind, args, node });
        const h = args[0] && I.norm(st, args[0]);
        if (h && h.k === 'sym') st.deferred = st.deferred.filter((d) => d.handle !== h.key);
        return one(st, A().U);
    };
}
M['global:clearTimeout'] = M['global:window.clearTimeout'] = clearer('clearTimeout');
M['global:clearInterval'] = M['global:window.clearInterval'] = clearer('clearInterval');
M['global:cancelAnimationFrame'] = M['global:window.cancelAnimationFrame'] = clearer('cancelAnimationFrame');

// ---------------------------------------------------------------- Vue
const VUE = (n, f) => {
    M[`import:vue#${n}`] = f;
};
function mkRef(I, st, v, extra) {
    const id = I.alloc(st, { t: 'ref', value: v || A().U, ...extra });
    return { k: 'ref', id };
}
VUE('ref', (I, st, args) => (args[0] && args[0].k === 'ref' ? one(st, args[0]) : one(st, mkRef(I, st, args[0]))));
VUE('shallowRef', (I, st, args) => one(st, mkRef(I, st, args[0])));
VUE('customRef', (I, st, args) => one(st, mkRef(I, st, A().Sym('customRef'))));
VUE('useTemplateRef', (I, st, args) => one(st, mkRef(I, st, A().NULL, { tplRef: args[0] && args[0].k === 'lit' ? args[0].v : null })));
VUE('computed', (I, st, args, node) => {
    const a = args[0];
    const id = A().fresh();
    let get = a, set = null;
    if (a && a.k === 'obj') {
        const c = I.getCell(st, a.id);
        get = c.props.get('get') || A().U;
        set = c.props.get('set');
    }
    const c = { k: 'computed', id, get, set, node };
    if (set) I.writables.push(c);
    return one(st, c);
});
VUE('readonly', (I, st, args) => one(st, args[0]));
VUE('shallowReadonly', (I, st, args) => one(st, args[0]));
VUE('markRaw', (I, st, args) => one(st, args[0]));
VUE('toRaw', (I, st, args) => one(st, args[0]));
VUE('shallowReactive', (I, st, args) => reactive(I, st, args));
VUE('reactive', (I, st, args) => reactive(I, st, args));
function reactive(I, st, args) {
    const o = args[0];
    if (o && o.k === 'obj') {
        const c = I.getCell(st, o.id);
        st.live.set(o.id, { ...c, reactive: true });
    }
    return one(st, o);
}
VUE('toRefs', (I, st, args) => {
    const o = args[0];
    if (o.k === 'props') return one(st, { k: 'torefs', props: o });
    return one(st, A().Sym(`toRefs(${A().keyOf(o)})`, { nonnull: true }));
});
VUE('toRef', (I, st, args) => {
    const [o, n] = args;
    if (o.k === 'props' && n && n.k === 'lit') return one(st, { k: 'propref', props: o, name: n.v });
    if (isFn(o)) return one(st, { k: 'computed', id: A().fresh(), get: o });
    return one(st, A().Sym(`toRef(${args.map(A().keyOf).join(',')})`, { nonnull: true }));
});
VUE('unref', (I, st, args) => (['ref', 'computed', 'propref'].includes(args[0].k) ? I.readRef(st, args[0]) : one(st, args[0])));
VUE('toValue', (I, st, args) => (['ref', 'computed', 'propref'].includes(args[0].k) ? I.readRef(st, args[0]) : isFn(args[0]) ? I.invoke(args[0], A().U, [], st) : one(st, args[0])));
VUE('isRef', (I, st, args) => one(st, A().Lit(['ref', 'computed', 'propref'].includes(args[0].k))));
VUE('nextTick', (I, st, args, node) => {
    if (isFn(args[0])) I.defer(st, args[0], 'nextTick', node, []);
    return one(st, { k: 'promise', v: A().U });
});
function watcher(kind) {
    return (I, st, args, node) => {
        const id = A().fresh();
        const stop = { k: 'native', name: 'stopWatch', key: `stopWatch#${id}`, impl: (I2, s, a, n2) => (I2.event(s, { t: 'stopwatch', key: `stopWatch#${id}`, node: n2, args: [] }), one(s, A().U)) };
        const opts = args[kind === 'watch' ? 2 : 1];
        const o = opts && opts.k === 'obj' ? I.getCell(st, opts.id) : null;
        const flag = (n) => !!(o && o.props.get(n) && o.props.get(n).k === 'lit' && o.props.get(n).v);
        const w = { kind, source: kind === 'watch' ? args[0] : null, cb: kind === 'watch' ? args[1] : args[0], immediate: kind !== 'watch' || flag('immediate'), deep: flag('deep'), flush: o && o.props.get('flush') && o.props.get('flush').k === 'lit' ? o.props.get('flush').v : 'pre', node, id };
        I.event(st, { t: 'watch', key: 'watch#' + id, w, node, args: [] });
        if (I.cfg.onWatch) I.cfg.onWatch(w, st);
        return one(st, stop);
    };
}
VUE('watch', watcher('watch'));
VUE('watchEffect', watcher('watchEffect'));
VUE('watchPostEffect', watcher('watchEffect'));
for (const n of ['onMounted', 'onBeforeMount', 'onBeforeUnmount', 'onUnmounted', 'onUpdated', 'onBeforeUpdate', 'onActivated', 'onDeactivated', 'onErrorCaptured'])
    VUE(n, (I, st, args, node) => {
        I.event(st, { t: 'hook', key: n, fn: args[0], node, args });
        if (I.cfg.onHook) I.cfg.onHook(n, args[0], st, node);
        return one(st, A().U);
    });
VUE('onScopeDispose', (I, st, args, node) => {
    I.event(st, { t: 'hook', key: 'onScopeDispose', fn: args[0], node, args });
    if (I.cfg.onHook) I.cfg.onHook('onScopeDispose', args[0], st, node);
    return one(st, A().U);
});
VUE('provide', (I, st, args, node) => {
    I.event(st, { t: 'provide', key: A().keyOf(args[0]), args, node });
    if (I.cfg.onProvide) I.cfg.onProvide(args[0], args[1], st);
    return one(st, A().U);
});
VUE('inject', (I, st, args, node) => {
    const key = A().keyOf(args[0]);
    I.event(st, { t: 'inject', key, args, node });
    if (I.cfg.onInject) {
        const v = I.cfg.onInject(key, args, st, node);
        if (v) return one(st, v);
    }
    if (args[1] && args[1].k !== 'lit') return one(st, args[1]);
    return one(st, A().Sym(`inject:${key}`));
});
VUE('defineComponent', (I, st, args) => one(st, args[0]));
VUE('h', (I, st, args, node) => {
    const v = I.mkObj(st, [['type', args[0] || A().U], ['props', args[1] || A().U], ['children', args[2] || A().U]], { vnode: true });
    I.event(st, { t: 'h', key: A().keyOf(args[0] || A().U), args, node, v });
    return one(st, v);
});
VUE('getCurrentInstance', (I, st) => one(st, A().Sym('currentInstance')));

// ---------------------------------------------------------------- helper libraries
M['import:radash#throttle'] = M['import:radash#debounce'] = (I, st, args, node) => {
    const fn = args[1];
    if (!isFn(fn)) return null;
    return one(st, A().Sym(`wrapped(${A().keyOf(fn)})#${A().fresh()}`, { nonnull: true, wraps: fn, wrapper: true }));
};
M['import:radash#isEqual'] = (I, st, args) => {
    const { TRUE, Sym, keyOf } = A();
    const a = I.norm(st, args[0]), b = I.norm(st, args[1]);
    const ka = keyOf(a), kb = keyOf(b);
    if (ka === kb) return one(st, TRUE);
    if (a.k === 'lit' && b.k === 'lit') return one(st, A().Lit(Object.is(a.v, b.v)));
    if (a.k === 'arr' && b.k === 'arr') {
        const x = I.elements(st, a), y = I.elements(st, b);
        if (x && y && x.length !== y.length) return one(st, A().FALSE);
        if (x && y && x.every((e, i) => keyOf(I.norm(st, e)) === keyOf(I.norm(st, y[i])))) return one(st, TRUE);
    }
    // a literal object is compared by what is in it
    const shape = (v) => {
        const c = v.k === 'obj' ? I.getCell(st, v.id) : null;
        return c && c.props && !c.cls && !(c.spreads && c.spreads.length) && [...c.props.values()].every((x) => x.k === 'lit' || x.k === 'sym') ? new Map(c.props) : null;
    };
    const shapes = [shape(a), shape(b)];
    const [sa, sb] = [ka, kb].map((k, i) => (shapes[i] ? `{${[...shapes[i]].map(([n, v]) => `${n}:${keyOf(v)}`).sort()}}` : k));
    return one(st, Sym(sa < sb ? `isEqual(${sa},${sb})` : `isEqual(${sb},${sa})`, { isBool: true, equalOf: [a, b], shapes }));
};
M['import:radash#isEmpty'] = (I, st, args) => {
    const { TRUE, FALSE, Sym, keyOf } = A();
    const v = I.norm(st, args[0]);
    if (v.k === 'lit' && (v.v === null || v.v === undefined || v.v === '')) return one(st, TRUE);
    if (v.k === 'arr') {
        const es = I.elements(st, v);
        if (es) return one(st, es.length ? FALSE : TRUE);
    }
    if (v.k === 'obj') {
        const c = st.live.get(v.id) || I.root.get(v.id);
        if (c && c.props.size) return one(st, FALSE);
        if (c && !c.open && !c.spreads.length) return one(st, TRUE);
    }
    return one(st, Sym(`isEmpty(${keyOf(v)})`, { isBool: true }));
};
// deep overlay of plain objects with known keys
M['import:radash#assign'] = (I, st, args) => {
    const { Sym, keyOf } = A();
    const off = (v) => !v || (v.k === 'lit' && !v.v);
    const join = (a, b) => {
        a = a && I.norm(st, a);
        b = b && I.norm(st, b);
        if (off(a) && off(b)) return I.mkObj(st, []);
        if (off(a)) return b;
        if (off(b)) return a;
        const ca = objKeys(I, st, a), cb = objKeys(I, st, b);
        if (!ca || !cb) return null;
        const out = [];
        for (const k of new Set([...ca.props.keys(), ...cb.props.keys()])) {
            const x = ca.props.get(k), y = cb.props.has(k) ? cb.props.get(k) : x;
            if (!x) out.push([k, y]);
            else if (x.k === 'obj') {
                const r = join(x, y);
                if (!r) return null;
                out.push([k, r]);
            } else if (x === y || x.k !== 'sym' || x.prim) out.push([k, y]);
            else out.push([k, Sym(`assign(${keyOf(x)},${keyOf(y)})`, { overlay: [x, y] })]);
        }
        return I.mkObj(st, out);
    };
    const r = join(args[0], args[1]);
    return r ? one(st, r) : null;
};
// drops the entries that are undefined
M['import:radash#shake'] = (I, st, args) => {
    if (args.length !== 1) return null;
    const v = I.norm(st, args[0]);
    if (v.k === 'lit' && !v.v) return one(st, I.mkObj(st, []));
    const c = objKeys(I, st, v);
    if (!c) return null;
    let outs = [{ s: st, v: [] }];
    for (const [k, x] of c.props)
        outs = I.bind(outs, (s, es) => {
            const y = I.norm(s, x);
            if (y.k === 'lit') return one(s, y.v === undefined ? es : [...es, [k, y]]);
            if (y.k !== 'sym' || y.nonnull) return one(s, [...es, [k, y]]);
            const r = I.truth(s, I.strictEq(s, y, A().U));
            return [...(r.t ? [{ s: r.t, v: es }] : []), ...(r.f ? [{ s: r.f, v: [...es, [k, y]] }] : [])];
        });
    return I.bind(outs, (s, es) => one(s, I.mkObj(s, es)));
};
M['import:radash#isObject'] = (I, st, args) => {
    const { Lit, Sym, keyOf } = A();
    const v = I.norm(st, args[0]);
    if (v.k === 'obj') return one(st, Lit(true));
    if (v.k !== 'sym' || v.prim) return one(st, Lit(false));
    return one(st, Sym(`isObject(${keyOf(v)})`, { isBool: true }));
};
M['import:change-case#kebabCase'] = (I, st, args) => {
    const v = args[0];
    if (!v || v.k !== 'lit' || typeof v.v !== 'string') return null;
    const t = v.v.trim().replace(/([\p{Ll}\d])(\p{Lu})/gu, '$1\0$2').replace(/(\p{Lu})([\p{Lu}][\p{Ll}])/gu, '$1\0$2').replace(/[^\p{L}\d]+/giu, '\0');
    return one(st, A().Lit(t.split('\0').filter(Boolean).map((x) => x.toLowerCase()).join('-')));
};
M['import:radash#omit'] = (I, st, args) => {
    const { U } = A();
    const o = args[0];
    const es = args[1] ? I.elements(st, args[1]) : [];
    if (o.k !== 'obj' || !es || !es.every((e) => e.k === 'lit')) return null;
    const c = I.getCell(st, o.id);
    const drop = new Set(es.map((e) => String(e.v)));
    return one(st, { k: 'obj', id: I.alloc(st, { ...c, props: new Map([...c.props].filter(([k]) => !drop.has(k))) }) });
};
module.exports = M;
