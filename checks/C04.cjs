'use strict';
// C04: the overlay stack. Store operations over a stack of opaque entries; users of the stack pair push and remove.
const path = require('path');
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, U, Lit, keyOf } = A;
const { Unit, Id } = require('../lib/unit.cjs');
const { Sim, isFn } = require('../lib/effects.cjs');
const { identities } = require('../lib/unit.cjs');
const { Dialogs } = require('../lib/dialogs.cjs');
const { report } = require('../lib/report.cjs');

const KEY = 'Enter';

// callbacks of one overlay: an opaque function per event name
function callbacks(u, st, owner, names) {
    const I = u.I;
    const o = I.mkObj(st, names.map((n) => [n, Sym(`cb:${owner}:${n}`, { nonnull: true, cb: { owner, name: n } })]));
    return { k: 'ref', id: I.alloc(st, { t: 'ref', value: o }) };
}
const ran = (s, from) => s.events().slice(from).filter((e) => e.t === 'call' && e.f && e.f.cb).map((e) => `${e.f.cb.owner}:${e.f.cb.name}`);

function store(R) {
    const OPEN = 'OVERLAY_OPEN', CLOSE = 'OVERLAY_CLOSE';
    const u = new Unit();
    const I = u.I;
    const cls = u.val('stores', 'OverlayCallbackStore');
    const name = (n) => u.val('declaration', n).v;
    const names = [name(OPEN), name(CLOSE), 'open', 'close', `key-${KEY}`];
    const file = cls.mod.rel;
    const bad = (key, message, node) => R.violation({ file, line: 0, key: `stack|${key}`, message, path: [] });
    // a stack of the given entries, and the key listener the store installed
    const build = (ids, opts = {}) => {
        let keydown = null;
        const st = u.state();
        let outs = u.during(
            (e) => {
                if (e.t === 'call' && e.name === 'addEventListener' && e.args[0].k === 'lit' && e.args[0].v === 'keydown') keydown = { fn: e.args[1], recv: e.recv, node: e.node };
            },
            () => u.make(cls, [], st),
        );
        if (outs.length !== 1 || outs[0].c) throw new Error('cannot construct the overlay store');
        const o = outs[0].v;
        for (const id of ids) {
            outs = I.bind(outs, (s) => u.send(s, o, 'push', [Id(id), callbacks(u, s, id, opts.names ? opts.names(id) : names)]));
        }
        return { outs, o, keydown };
    };
    const content = (s, o) => {
        const ls = u.lists(s, o).filter((l) => l.elems);
        if (!ls.length) return null;
        const best = ls.sort((a, b) => b.elems.length - a.elems.length)[0];
        return best.elems.map((e) => [...u.idents(s, e)].join('+')).join(',');
    };
    const expect = (label, b, act, want, called, sub) => {
        for (const o of I.bind(b.outs, (s) => [{ s: s.clone(), v: U }])) {
            const from = o.s.ev ? o.s.ev.n : 0;
            const outs = act(o.s, b.o);
            if (!outs.length) bad(label, `${label} never ends`);
            for (const x of outs) {
                R.count('store_paths');
                if (x.c === 'throw') {
                    bad(label, `${label} throws`);
                    continue;
                }
                const c = content(x.s, b.o);
                if (c === null || c !== want) bad(label, `${label}: the stack holds [${c}] instead of [${want}] (${file})`);
                const r = ran(x.s, from).filter((k) => !sub || sub(k));
                if (r.join(',') !== called.join(',')) bad(`${label}|callbacks`, `${label}: runs [${r}] instead of [${called}] (${file})`);
            }
        }
        R.count('store_scenarios');
    };
    const closeOnly = (k) => k.endsWith(':' + name(CLOSE));
    const openOnly = (k) => k.endsWith(':' + name(OPEN));
    for (const ids of [[], ['A'], ['A', 'B']])
        expect(`opening an overlay above ${ids.length} others`, build(ids), (s, o) => u.send(s, o, 'push', [Id('N'), callbacks(u, s, 'N', names)]), [...ids, 'N'].join(','), ['N:' + name(OPEN)], openOnly);
    for (const t of ['A', 'B', 'C']) {
        const rest = ['A', 'B', 'C'].filter((x) => x !== t).join(',');
        expect(`closing entry ${t} of A,B,C`, build(['A', 'B', 'C']), (s, o) => u.send(s, o, 'remove', [Id(t)]), rest, [`${t}:${name(CLOSE)}`], closeOnly);
        expect(`closing entry ${t} of A,B,C (close event)`, build(['A', 'B', 'C']), (s, o) => u.send(s, o, 'remove', [Id(t)]), rest, [`${t}:close`], (k) => k.endsWith(':close'));
    }
    expect('closing an overlay that is not open', build(['A', 'B']), (s, o) => u.send(s, o, 'remove', [Id('X')]), 'A,B', [], () => true);
    expect('closing the topmost overlay', build(['A', 'B']), (s, o) => u.send(s, o, 'pop', []), 'A', [`B:${name(CLOSE)}`], closeOnly);
    expect('closing the topmost overlay of an empty stack', build([]), (s, o) => u.send(s, o, 'pop', []), '', [], () => true);
    expect('closing all overlays', build(['A', 'B']), (s, o) => u.send(s, o, 'clear', []), '', [`B:${name(CLOSE)}`, `A:${name(CLOSE)}`], closeOnly);
    // a close callback that opens or closes other overlays
    for (const [what, t, act, want] of [
        ['opens another', 'B', (s, o) => u.send(s, o, 'push', [Id('N'), callbacks(u, s, 'N', names)]), 'A,C,N'],
        ['closes the one below', 'B', (s, o) => u.send(s, o, 'remove', [Id('A')]), 'C'],
        ['closes the one above', 'B', (s, o) => u.send(s, o, 'remove', [Id('C')]), 'A'],
        ['asks to be closed again', 'B', (s, o) => u.send(s, o, 'remove', [Id('B')]), 'A,C'],
    ]) {
        for (const way of ['remove', 'pop']) {
            if (way === 'pop' && /above/.test(what)) continue;
            const ids = way === 'pop' ? ['A', 'B'] : ['A', 'B', 'C'];
            const w = way === 'pop' ? want.split(',').filter((x) => x && x !== 'C').join(',') : want;
            const b = build(ids);
            let times = 0;
            const nest = {
                k: 'native', name: 'nested', impl: (I2, s) => {
                    I2.event(s, { t: 'call', f: { cb: { owner: t, name: name(CLOSE) } }, key: 'nested', args: [], name: 'nested' });
                    if (++times > 6) return [{ s, v: U }];
                    return act(s, b.o);
                },
            };
            for (const o of b.outs) {
                // give the target the nested callback
                for (const l of u.lists(o.s, b.o))
                    for (const e of l.elems || [])
                        if (u.idents(o.s, e).has(t))
                            eachRef(u, o.s, e, (r) => {
                                const c = I.getCell(o.s, r.id);
                                const oc = c.value.k === 'obj' ? I.getCell(o.s, c.value.id) : null;
                                if (oc && oc.props.has(name(CLOSE))) o.s.live.set(c.value.id, { ...oc, props: new Map([...oc.props, [name(CLOSE), nest]]) });
                            });
            }
            expect(`closing an overlay whose close callback ${what} (${way})`, b, (s, o) => u.send(s, o, way, way === 'pop' ? [] : [Id(t)]), w, [`${t}:${name(CLOSE)}`], (k) => k === `${t}:${name(CLOSE)}`);
        }
    }
    // the last entry is the topmost
    for (const o of build(['A', 'B', 'C']).outs) {
        const b = build(['A', 'B', 'C']);
        for (const x of I.bind(b.outs, (s) => u.send(s, b.o, 'getLastOverlayId', []))) {
            R.count('store_paths');
            if (x.v.ident !== 'C') bad('topmost', `the topmost of A,B,C is reported as ${keyOf(x.v)}`);
        }
        void o;
    }
    // key presses
    const press = (b) => (s) => {
        if (!b.keydown) return [{ s, v: U }];
        return I.bind([{ s, v: U }], (s2) => u.call(b.keydown.fn, [I.mkObj(s2, [['code', Lit(KEY)], ['key', Lit(KEY)]], { open: true })], s2));
    };
    for (const ids of [[], ['A'], ['A', 'B', 'C']]) {
        const b = build(ids);
        if (!b.keydown) bad('keys', 'the store listens to no key presses');
        expect(`a key press over ${ids.length} overlays`, b, press(b), ids.join(','), ids.length ? [`${ids[ids.length - 1]}:key-${KEY}`] : [], () => true);
    }
    {
        const b = build(['A', 'B'], { names: (id) => (id === 'B' ? names.slice(0, 4) : names) });
        expect('a key press the topmost overlay does not handle', b, press(b), 'A,B', [], () => true);
    }
    R.stats(I.stats);
}
function eachRef(u, st, v, f, d = 4) {
    if (!v || d < 0 || v.id === undefined) return;
    if (v.k === 'ref') f(v);
    const c = u.I.getCell(st, v.id);
    if (c && c.t === 'arr') for (const x of c.elems || []) eachRef(u, st, x, f, d - 1);
    if (c && c.t === 'obj') for (const x of c.props.values()) eachRef(u, st, x, f, d - 1);
}

// components that enter the stack: what was pushed is what is removed, whatever changed in between
function users(R) {
    for (const f of L.sourceFiles(L.UI).filter((x) => x.endsWith('.vue'))) {
        const sim = new Sim({ decide: (v) => identities(v) });
        sim.load(f);
        const { I, top } = sim;
        const u = new Unit({}, I);
        const use = u.val('stores', 'useOverlayCallbackStore');
        const got = I.invoke(use, U, [], sim.state(), null);
        const st = got[0].v;
        const prepare = () => {
            const s = sim.state();
            u.asBuilt(s, st);
            return u.send(s, st, 'push', [Id('Other'), callbacks(u, s, 'Other', [])]);
        };
        const size = (s) => {
            const l = u.lists(s, st).filter((x) => x.elems)[0];
            return l ? l.elems.map((e) => [...u.idents(s, e)].filter((x) => x !== 'S')) : null;
        };
        const withId = (n) => ({ props: (inst, name) => (inst === top && name === 'id' ? Id(n) : null) });
        const site = (node) => I.loc(node).replace(/:\d+$/, '');
        const alone = (s) => {
            const left = size(s);
            return left && left.length === 1 && left[0][0] === 'Other';
        };
        // a watched flag changes, then its watcher runs
        const flip = (x, on) => (s) => {
            const c = x.w.source && x.w.source.k === 'ref' && I.getCell(s, x.w.source.id);
            if (c) s.live.set(x.w.source.id, { ...c, value: Lit(on) });
            return I.invoke(x.w.cb, U, [Lit(on), Lit(!on)], s, x.w.node);
        };
        const openers = sim.watchers().filter((x) => x.inst === top).map((x) => ({ node: x.w.node, open: flip(x, true), close: flip(x, false) }));
        for (const h of sim.hooks('onMounted')) if (h.inst === top) openers.push({ node: h.node, open: (s) => I.invoke(h.fn, U, [], s, h.node), close: null });
        const away = sim.hooks('onBeforeUnmount', 'onUnmounted').filter((h) => h.inst === top);
        for (const x of openers) {
            const opened = sim.under(withId('P1'), () => I.bind(prepare(), (s) => x.open(s))).filter((o) => !o.c && (size(o.s) || []).length > 1);
            if (!opened.length) continue;
            R.count('openers');
            R.sample({ component: top.def.name, opened_at: I.loc(x.node) });
            for (const o of opened) {
                R.count('user_paths');
                const c = size(o.s);
                if (c.length !== 2) R.violation({ file: L.rel(f), line: 0, key: `${top.def.name}|double`, message: `${top.def.name} pushes ${c.length - 1} entries when it opens (${I.loc(x.node)})` });
                for (const [what, scn] of [['', withId('P1')], [' after its id changed', withId('P2')]]) {
                    if (x.close)
                        for (const z of sim.under(scn, () => x.close(o.s.clone()))) {
                            R.count('user_paths');
                            if (!alone(z.s)) R.violation({ file: L.rel(f), line: 0, key: `${site(x.node)}|leave${what}`, message: `closing ${top.def.name}${what} does not remove exactly its own entry from the overlay stack (opened at ${I.loc(x.node)})`, path: [] });
                        }
                    let outs = [{ s: o.s.clone(), v: U }];
                    sim.under(scn, () => {
                        for (const h of away) outs = I.bind(outs, (s) => I.invoke(h.fn, U, [], s, h.node).map((y) => ({ s: y.s, v: U })));
                    });
                    for (const z of outs) {
                        R.count('user_paths');
                        if (!alone(z.s)) R.violation({ file: L.rel(f), line: 0, key: `${site(x.node)}|unmount${what}`, message: `unmounting ${top.def.name}${what} while open does not remove exactly its own entry from the overlay stack (opened at ${I.loc(x.node)})`, path: [] });
                    }
                }
            }
        }
        R.stats(I.stats);
    }
}

// the modal plugin: what is closed is the dialog asked for, in both stores, and only that one
function modals(R) {
    const D = new Dialogs({ keepEvent: (e) => e.t === 'call' && e.f && e.f.cb });
    const { u, I, CLOSE } = D;
    const file = u.val('plugins', 'createModalPlugin').mod.rel;
    const SIDE = '#side';
    // dialogs as opened through the plugin, each entering the overlay stack, and another overlay above them
    const world = (hook) => {
        const s0 = D.fresh();
        const p = D.plugin(s0, 'createModalPlugin');
        let outs = [{ s: s0, v: U }];
        const open = (id, container, before) => (s) =>
            I.bind(u.send(s, p, 'open', [Sym('content', { nonnull: true }), I.mkObj(s, [['id', Id(id)], ...(container ? [['container', Lit(container)]] : []), ...(before ? [['beforeClose', before]] : []), ['callbacks', D.cbs(s, id, [CLOSE, 'ping'])]])]), (s2, v) => {
                if (!v || v.ident !== id) R.violation({ file, line: 0, key: 'modal|id', message: `opening a modal with a given id returns ${keyOf(v)} (${file})` });
                return D.enter(s2, Id(id), D.cbs(s2, id, [CLOSE, 'ping']));
            });
        const before = hook && { k: 'native', name: 'beforeClose', impl: (I2, s) => hook(s, open, p) };
        for (const [id, c, b] of [['m1', '', before], ['s1', SIDE], ['m2', '', before]]) outs = I.bind(outs, open(id, c, b));
        outs = I.bind(outs, (s) => D.enter(s, Id('tip'), D.cbs(s, 'tip', [CLOSE, 'ping'])));
        return { outs, p };
    };
    const scenario = (label, hook, act, want) => {
        const w = world(hook);
        R.count('modal_scenarios');
        for (const b of w.outs) {
            const from = b.s.ev ? b.s.ev.n : 0;
            const outs = act(b.s.clone(), w.p);
            if (!outs.length) R.violation({ file, line: 0, key: `modal|${label}`, message: `${label} never ends (${file})` });
            for (const o of outs) {
                R.count('modal_paths');
                const got = { body: (D.dialogs(o.s, 'body') || []).join(), side: (D.dialogs(o.s, SIDE) || []).join(), stack: (D.stack(o.s) || []).join(), ran: ran(o.s, from).filter((k) => want.event || k.endsWith(':' + CLOSE)).join() };
                const exp = { body: want.body, side: want.side, stack: want.stack, ran: (want.ran || []).map((x) => `${x}:${want.event || CLOSE}`).join() };
                for (const k of Object.keys(exp)) if (got[k] !== exp[k]) R.violation({ file, line: 0, key: `modal|${label}|${k}`, message: `${label}: ${{ body: 'the dialogs of body are', side: 'the dialogs of the other container are', stack: 'the overlay stack is', ran: 'the callbacks run are' }[k]} [${got[k]}] instead of [${exp[k]}] (${file})` });
                if (o.c === 'throw') R.violation({ file, line: 0, key: `modal|${label}|throw`, message: `${label} throws (${file})` });
            }
        }
    };
    const all = { body: 'm1,m2', side: 's1', stack: 'm1,s1,m2,tip' };
    scenario('opening modals', null, (s) => [{ s, v: U }], all);
    scenario('closing the last modal', null, (s, p) => u.send(s, p, 'close', []), { body: 'm1', side: 's1', stack: 'm1,s1,tip', ran: ['m2'] });
    scenario('closing the last modal of another container', null, (s, p) => u.send(s, p, 'close', [Lit(SIDE)]), { body: 'm1,m2', side: '', stack: 'm1,m2,tip', ran: ['s1'] });
    scenario('closing the last modal of an empty container', null, (s, p) => u.send(s, p, 'close', [Lit('#none')]), all);
    scenario('closing a modal by id', null, (s, p) => u.send(s, p, 'closeWithId', [Lit('body'), Id('m1')]), { body: 'm2', side: 's1', stack: 's1,m2,tip', ran: ['m1'] });
    scenario('closing an unknown modal', null, (s, p) => u.send(s, p, 'closeWithId', [Lit('body'), Id('zz')]), all);
    scenario('clearing a container', null, (s, p) => u.send(s, p, 'clear', []), { body: '', side: 's1', stack: 's1,tip', ran: ['m1', 'm2'] });
    scenario('clearing another container', null, (s, p) => u.send(s, p, 'clear', [Lit(SIDE)]), { body: 'm1,m2', side: '', stack: 'm1,m2,tip', ran: ['s1'] });
    const yes = (s) => [{ s, v: A.TRUE }];
    scenario('closing the last modal whose beforeClose agrees', yes, (s, p) => u.send(s, p, 'close', []), { body: 'm1', side: 's1', stack: 'm1,s1,tip', ran: ['m2'] });
    const opens = (s, open) => I.bind(open('n', '')(s), (s2) => yes(s2));
    scenario('closing the last modal whose beforeClose opens another', opens, (s, p) => u.send(s, p, 'close', []), { body: 'm1,n', side: 's1', stack: 'm1,s1,tip,n', ran: ['m2'] });
    scenario('closing a modal by id whose beforeClose opens another', opens, (s, p) => u.send(s, p, 'closeWithId', [Lit('body'), Id('m1')]), { body: 'm2,n', side: 's1', stack: 's1,m2,tip,n', ran: ['m1'] });
    scenario('raising an event', null, (s, p) => u.send(s, p, 'emit', [Lit('ping')]), { ...all, ran: ['tip'], event: 'ping' });
    scenario('raising an event on one modal', null, (s, p) => u.send(s, p, 'emitWithId', [Id('s1'), Lit('ping')]), { ...all, ran: ['s1'], event: 'ping' });
    R.stats(I.stats);
}

exports.run = () => {
    const R = report();
    store(R);
    modals(R);
    users(R);
    R.require('store_scenarios', 10);
    R.require('modal_scenarios', 10);
    R.require('openers', 1);
    return R.result({
        rule: 'After every store operation and every modal plugin operation the stack must hold exactly the expected entries in opening order and have run exactly the expected close or event callbacks; a component that entered the stack must, on closing and on unmount, also after its id changed, leave exactly the entries that were there before.',
        explanation:
            'Abstract interpretation of the overlay store, the modal plugin and every component over stacks of opaque entries (entries differ by identity only; callbacks, elements and options stay unknown). All paths of each operation are followed; close callbacks that open or close further overlays, beforeClose functions that open another dialog, and id changes between opening and closing are part of the enumerated histories.',
        assumptions: ['stacks of up to four entries and two containers stand for larger ones: no operation distinguishes entries by anything but identity and position', 'an awaited beforeClose completes'],
    });
};
