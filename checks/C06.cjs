'use strict';
// C06: dialog promises. Every way a dialog can go away settles its promise once, with the chosen outcome, and closes that dialog only.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, U, Lit, NULL, keyOf } = A;
const { Id, identities, Unit } = require('../lib/unit.cjs');
const { Dialogs } = require('../lib/dialogs.cjs');
const { Sim, isFn } = require('../lib/effects.cjs');
const { report } = require('../lib/report.cjs');

const KINDS = [
    { name: 'alert', make: 'createAlertPlugin', yes: U, no: U },
    { name: 'confirm', make: 'createConfirmPlugin', yes: Lit(true), no: Lit(false), cancel: true },
    { name: 'prompt', make: 'createPromptPlugin', yes: 'typed', no: NULL, cancel: true, input: true },
];
const show = (v) => (v ? keyOf(v) : 'nothing');

function dialogs(R) {
    const CONTAINERS = [['in the default container', null, 'body'], ['in a given container', '#side', '#side'], ['with an empty container name', '', 'body']];
    const D = new Dialogs({ keepEvent: (e) => e.t === 'settle' || e.t === 'promise' || (e.t === 'call' && ((e.f && e.f.cb) || e.name === 'validate')) });
    const { u, I, CLOSE } = D;
    for (const K of KINDS) {
        const maker = u.val('plugins', K.make);
        const file = maker.mod.rel;
        // a dialog opened between an older dialog and, when covered, a newer one
        const open = (copt, cname, covered, withId) => {
            const s0 = D.fresh();
            const modal = D.plugin(s0, 'createModalPlugin');
            const plug = D.plugin(s0, K.make, modal);
            const other = (n) => (s) => I.bind(u.send(s, modal, 'open', [Sym(n, { nonnull: true }), I.mkObj(s, [['id', Id(n)], ['container', Lit(cname)], ['callbacks', D.cbs(s, n, [CLOSE])]])]), (s2) => D.enter(s2, Id(n), D.cbs(s2, n, [CLOSE])));
            let outs = other('older')(s0);
            outs = I.bind(outs, (s) => {
                const opts = [['okText', Id('okText')], ['cancelText', Id('cancelText')]];
                // an application may listen to the same events
                if (withId) opts.push(['id', Id('mine')], ['callbacks', D.cbs(s, 'application', [CLOSE, 'key-Enter', 'key-Escape'])]);
                if (copt !== null) opts.push(['container', Lit(copt)]);
                return u.send(s, plug, 'open', [Sym('content', { nonnull: true }), I.mkObj(s, opts)]);
            });
            const res = [];
            for (const o of outs) {
                R.count('opening_paths');
                const info = D.missing ? null : D.infos(o.s, cname).slice(-1)[0];
                const promise = o.v && o.v.k === 'promise' ? o.v : null;
                res.push({ o, info, promise, modal, get: (x, n) => I.getMember(o.s, x, n, null, {})[0].v });
            }
            const out = [];
            for (const r of res) {
                if (!r.info) {
                    out.push(r);
                    continue;
                }
                const id = r.get(r.info, 'id');
                const cbs = r.get(r.info, 'callbacks');
                for (const x of I.bind(D.enter(r.o.s, id, cbs), (s) => (covered ? other('newer')(s) : [{ s, v: U }]))) out.push({ ...r, o: x, id, cbs });
            }
            return out;
        };
        // what the dialog renders: its buttons by label, its input
        const rendered = (r) => {
            const buttons = {};
            const inputs = [];
            const label = (v, s, out, d = 6) => {
                for (const i of u.idents(s, v)) out.add(i);
                const c = v && v.k === 'obj' && I.getCell(s, v.id);
                for (const x of c && c.props ? c.props.values() : v && v.k === 'fn' ? [v] : []) {
                    if (x.k === 'obj' && d) label(x, s, out, d - 1);
                    if (isFn(x) && d) for (const o of u.call(x, [], s.clone())) label(o.v, o.s, out, d - 1);
                }
                return out;
            };
            const walk = (v, s, d = 12) => {
                if (!v || !d) return;
                if (v.k === 'fn') return u.call(v, [], s.clone()).forEach((o) => walk(o.v, o.s, d - 1));
                if (v.k === 'arr') return (I.elements(s, v) || []).forEach((x) => walk(x, s, d - 1));
                const c = v.k === 'obj' && I.getCell(s, v.id);
                if (!c || !c.vnode) return;
                const pc = c.props.get('props').k === 'obj' && I.getCell(s, c.props.get('props').id);
                const get = (n) => (pc && pc.props ? pc.props.get(n) : null);
                if (isFn(get('onClick'))) for (const l of label(c.props.get('children'), s, new Set())) buttons[l] = get('onClick');
                if (isFn(get('onUpdate:modelValue'))) inputs.push({ update: get('onUpdate:modelValue'), ref: get('ref'), s });
                walk(c.props.get('children'), s, d - 1);
            };
            walk(r.get(r.info, 'content'), r.o.s);
            return { buttons, inputs };
        };
        // the mounted input: its validation passes or fails
        const instance = (s) =>
            I.mkObj(s, [
                ['validate', { k: 'native', name: 'validate', impl: (I2, st) => [true, false].map((ok) => {
                    const s2 = st.clone();
                    I2.event(s2, { t: 'call', name: 'validate', key: `validate:${ok}`, args: [], ok });
                    return { s: s2, v: Lit(ok) };
                }) }],
                ['clear', { k: 'native', name: 'clear', impl: (I2, st) => [{ s: st, v: U }] }],
            ]);
        const bad = (key, message) => R.violation({ file, line: 0, key: `${K.name}|${key}`, message: `${message} (${file})` });
        const judge = (label, r, outs, want, covered, cname, refusable, all) => {
            R.count('routes');
            if (!outs.length) bad(label, `${K.name} ${label}: never ends`);
            for (const o of outs) {
                R.count('route_paths');
                const evs = o.s.events();
                const mine = evs.filter((e) => e.t === 'settle' && r.promise && e.promise === r.promise.id);
                const asked = evs.filter((e) => e.t === 'call' && e.name === 'validate');
                const refused = refusable && asked.some((e) => e.ok === false);
                const stack = (D.stack(o.s) || []).join();
                const left = (D.dialogs(o.s, cname) || []).join();
                const mineKey = keyOf(r.id);
                const others = all ? '' : covered ? 'older,newer' : 'older';
                if (refused) {
                    if (mine.length) bad(`${label}|refused`, `${K.name} ${label}: the promise settles with ${show(mine[0].args[0])} although validation failed`);
                    if (!left.includes(mineKey)) bad(`${label}|refused open`, `${K.name} ${label}: the dialog closes although validation failed`);
                    continue;
                }
                if (refusable && !asked.some((e) => e.ok)) bad(`${label}|unvalidated`, `${K.name} ${label}: answers without a passed validation`);
                if (!mine.length) {
                    bad(`${label}|unsettled`, `${K.name} ${label}: the promise never settles`);
                    continue;
                }
                const got = mine[0].kind === 'resolve' ? mine[0].args[0] || U : null;
                const ok = got && (want === 'typed' ? got.ident === 'typed' : keyOf(I.norm(o.s, got)) === keyOf(want));
                if (!ok) bad(`${label}|outcome`, `${K.name} ${label}: settles with ${show(got)} instead of ${want === 'typed' ? 'the typed text' : show(want)}`);
                if (left !== others) bad(`${label}|dialogs`, `${K.name} ${label}: the open dialogs afterwards are [${left}] instead of [${others}]`);
                if (stack !== others) bad(`${label}|stack`, `${K.name} ${label}: the overlay stack afterwards is [${stack}] instead of [${others}]`);
                const cb = evs.filter((e) => e.t === 'call' && e.f && e.f.cb);
                if (cb.length && !all) bad(`${label}|others`, `${K.name} ${label}: runs ${cb[0].f.cb.name} of another overlay`);
            }
        };
        for (const [cwhat, copt, cname] of CONTAINERS)
            for (const covered of [false, true])
                for (const withId of [true, false]) {
                    const what = `${cwhat}${covered ? ', below another dialog' : ''}`;
                    const rs = open(copt, cname, covered, withId);
                    if (!rs.length) bad('open', `opening a ${K.name} ${what} never ends`);
                    for (const r of rs) {
                        if (!r.info || keyOf(r.get(r.info, 'id')) === 'older') {
                            bad(`open ${cwhat}`, `opening a ${K.name} ${what} shows no dialog`);
                            continue;
                        }
                        if (!r.promise) {
                            bad('promise', `opening a ${K.name} returns no promise`);
                            continue;
                        }
                        if (r.o.s.events().some((e) => e.t === 'settle')) bad('early', `opening a ${K.name} settles its promise at once`);
                        const R2 = rendered(r);
                        // the input is mounted and the user typed
                        let base = [{ s: r.o.s, v: U }];
                        if (K.input) {
                            if (!R2.inputs.length) {
                                bad('input', `a ${K.name} renders no input with a two-way value`);
                                continue;
                            }
                            base = R2.inputs.flatMap((x) => {
                                const s = x.s.clone();
                                if (x.ref && x.ref.k === 'ref') s.live.set(x.ref.id, { ...I.getCell(s, x.ref.id), value: instance(s) });
                                return u.call(x.update, [Id('typed')], s);
                            });
                        }
                        const cb = (n) => {
                            const c = I.getMember(r.o.s, r.cbs, n, null, {})[0];
                            return c && isFn(c.v) ? c.v : null;
                        };
                        const ev = () => Sym('$event', { nonnull: true });
                        const routes = [
                            ['on a click on the confirm button', R2.buttons.okText, K.yes, true],
                            ['on Enter', cb('key-Enter'), K.yes, true],
                            ['on Escape', cb('key-Escape'), K.no],
                        ];
                        if (K.cancel) routes.push(['on a click on the cancel button', R2.buttons.cancelText, K.no]);
                        for (const [label, fn, want, positive] of routes) {
                            if (!fn) {
                                bad(label, `${K.name} ${what}: nothing happens ${label}`);
                                continue;
                            }
                            judge(`${label}, ${what}`, r, I.bind(base.map((o) => ({ s: o.s.clone(), v: U })), (s) => u.call(fn, [ev()], s)), want, covered, cname, positive && K.input);
                        }
                        for (const [label, act, all] of [
                            ['when it leaves the overlay stack', (s) => I.bind(u.send(s, D.overlays, 'remove', [r.id]), (s2) => u.send(s2, D.modals, 'remove', [Lit(cname), r.id]))],
                            ['when closed by its id', (s) => u.send(s, r.modal, 'closeWithId', [Lit(cname), r.id])],
                            ...(covered ? [] : [['when the last dialog is closed', (s) => u.send(s, r.modal, 'close', [Lit(cname)])]]),
                            ['when all dialogs are closed', (s) => u.send(s, r.modal, 'clear', [Lit(cname)]), true],
                        ])
                            judge(`${label}, ${what}`, r, I.bind(base.map((o) => ({ s: o.s.clone(), v: U })), act), K.no, covered, cname, false, all);
                    }
                }
        // nowhere to show the dialog
        D.missing = true;
        for (const r of open(null, 'body', false, true)) {
            R.count('routes');
            const mine = r.o.s.events().filter((e) => e.t === 'settle' && r.promise && e.promise === r.promise.id);
            if (r.promise && r.promise.rejected) continue;
            if (!mine.length) bad('missing container', `a ${K.name} whose container does not exist never settles`);
            else if (mine[0].kind === 'resolve' && keyOf(mine[0].args[0] || U) !== keyOf(K.no)) bad('missing container|outcome', `a ${K.name} whose container does not exist settles with ${show(mine[0].args[0])} instead of ${show(K.no)}`);
        }
        D.missing = undefined;
        R.sample({ dialog: K.name, file });
    }
    R.stats(I.stats);
}

// the rendered dialog: what enters the overlay stack runs the callbacks the dialog was opened with
function node(R) {
    const f = L.sourceFiles(L.UI).find((x) => /VsModalNode\.vue$/.test(x));
    const sim = new Sim({ keepEvent: (e) => e.t === 'call' && e.f && e.f.cb, decide: (v) => identities(v) });
    sim.load(f);
    const { I, top } = sim;
    const u = new Unit({}, I);
    const st = I.invoke(u.val('stores', 'useOverlayCallbackStore'), U, [], sim.state(), null)[0].v;
    const CLOSE = u.val('declaration', 'OVERLAY_CLOSE').v;
    const names = [CLOSE, 'key-Enter', 'key-Escape', 'ok'];
    const scn = { props: (inst, name, s) => (inst !== top ? null : name === 'id' ? Id('mine') : name === 'callbacks' ? I.mkObj(s, names.map((n) => [n, Sym(`cb:${n}`, { nonnull: true, cb: { name: n } })])) : null) };
    const bad = (key, message) => R.violation({ file: L.rel(f), line: 0, key: `node|${key}`, message: `${message} (${L.rel(f)})` });
    sim.under(scn, () => {
        const s0 = sim.state();
        u.asBuilt(s0, st);
        let outs = [{ s: s0, v: U }];
        for (const h of sim.hooks('onMounted')) if (h.inst === top) outs = I.bind(outs, (s) => I.invoke(h.fn, U, [], s, h.node));
        outs = outs.map((o) => ({ s: o.s, v: U }));
        outs = sim.world.flush(sim.state(), outs, [top]);
        let entered = 0;
        for (const o of outs) {
            const list = u.lists(o.s, st).filter((x) => x.elems)[0];
            if (!list || !list.elems.length) continue;
            entered++;
            const tuple = I.getCell(o.s, list.elems[list.elems.length - 1].id);
            const held = [...(tuple.elems || []), ...(tuple.props ? tuple.props.values() : [])].find((x) => x.k === 'computed' || x.k === 'ref' || x.k === 'propref');
            if (!held) continue;
            for (const n of names)
                for (const c of I.readRef(o.s.clone(), held, null))
                    for (const m of I.getMember(c.s, c.v, n, null, {})) {
                        R.count('forwarded_callbacks');
                        if (m.v.cb) {
                            if (m.v.cb.name !== n) bad(`${n}|other`, `an open dialog answers ${n} with its ${m.v.cb.name} callback`);
                            continue;
                        }
                        if (!isFn(m.v)) {
                            bad(n, `an open dialog does not pass ${n} on to the callbacks it was given`);
                            continue;
                        }
                        for (const x of I.invoke(m.v, U, [Sym('$event', { nonnull: true })], m.s.clone(), null)) {
                            const ran = x.s.events().filter((e) => e.f && e.f.cb).map((e) => e.f.cb.name);
                            if (ran.filter((k) => k === n).length < 1) bad(n, `an open dialog does not pass ${n} on to the callbacks it was given`);
                        }
                    }
        }
        if (!entered) bad('enter', 'a mounted dialog does not enter the overlay stack');
    });
    R.stats(I.stats);
}
// the dialog list renders every dialog with its own id and callbacks, and drops it once closed
function view(R) {
    const f = L.sourceFiles(L.UI).find((x) => /VsModalView\.vue$/.test(x));
    const sim = new Sim({});
    sim.load(f);
    const { I, top } = sim;
    const bad = (key, message) => R.violation({ file: L.rel(f), line: 0, key: `view|${key}`, message: `${message} (${L.rel(f)})` });
    const child = sim.b.all.find((x) => x.parent === top && x.def.props.has('callbacks'));
    if (!child) return bad('child', 'the dialog list renders no dialog');
    for (const n of ['id', 'callbacks', 'beforeClose', 'escClose', 'dimClose']) {
        R.count('bound_options');
        for (const o of child.readProp(n, sim.state(), I)) if (!o.v.memberOf || o.v.prop !== n) bad(n, `the dialog list does not hand ${n} of a dialog to what renders it`);
    }
    let drops = 0;
    sim.during((e) => void (['mapset', 'mapdelete', 'mapclear'].includes(e.t) && drops++), () => {
        const emit = child.emitFn();
        sim.runFn(emit, [Lit('close')]);
    });
    if (!drops) bad('drop', 'a closed dialog stays in the dialog list');
    R.stats(I.stats);
}

exports.run = () => {
    const R = report();
    dialogs(R);
    node(R);
    view(R);
    R.require('routes', 60);
    R.require('forwarded_callbacks', 4);
    return R.result({
        rule: 'On every path of every route (confirm button, cancel button, Enter, Escape, leaving the stack, closed by id, as last, with all others, no container) the first settlement of the dialog promise must carry the outcome of that route, a prompt answers positively only on paths where its input validated, and afterwards the container and the overlay stack must hold exactly the other dialogs.',
        explanation:
            'Abstract interpretation of the alert, confirm and prompt plugins together with the modal plugin and both stores; contents, labels, ids and typed text are opaque identities, buttons are found by the label they render. Each dialog is opened between an older dialog and optionally a newer one, in the default, a given and an empty container name, with and without an own id. The rendered dialog and the dialog list are analysed separately: every callback given must be forwarded from what enters the stack.',
        assumptions: ['beforeClose is not supplied (see C02)', 'the rendered dialog enters the stack when mounted (analysed as part of this check)'],
    });
};
