'use strict';
// C07: every value control in a form registers under its identifier, reports validity and changed state, leaves when
// unmounted or renamed; form commands reach it; its own validation settings take part in validation.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, Lit, U, TRUE, FALSE, St, keyOf } = A;
const { World, compDef } = require('../lib/component.cjs');
const { Sim, isFn, formPins } = require('../lib/effects.cjs');
const { report } = require('../lib/report.cjs');

function mountInForm(formFile, f) {
    const fs = new Sim();
    const form = fs.world.mount(L.loadModule(formFile), new St(), {});
    const n0 = fs.world.instances.length;
    const mod = L.loadModule(f);
    const { st, inst } = fs.world.mount(mod, form.st, { parent: form.inst, isTop: true });
    const ctx = fs.world.expand(st, inst, 0);
    fs.b = { mod, inst, entries: ctx.entries, elements: ctx.elements || [], setupState: ctx.st, frozen: fs.I.freeze(ctx.st), all: fs.world.instances.slice(n0) };
    fs.top = inst;
    fs.form = form.inst;
    return fs;
}

// cells and props read while evaluating
function reads(I, f) {
    const set = new Set();
    const prev = I.cfg.onRead;
    I.cfg.onRead = (o) => {
        if (o.k === 'ref') set.add('ref#' + o.id);
        if (o.k === 'propref') set.add('prop:' + o.props.inst.uid + '.' + o.name);
        if (prev) prev(o);
    };
    try {
        f();
    } finally {
        I.cfg.onRead = prev;
    }
    return set;
}

function memberOf(I, st, o, name) {
    const r = I.getMember(st, o, name, null, {});
    return r.length ? r[0].v : U;
}

// value of a reactive source
const valuesOf = (I, st, v) => (['ref', 'computed', 'propref'].includes(v.k) ? I.getMember(st, v, 'value', null, {}) : [{ s: st, v }]);

function analyse(fs, def, R) {
    const { I, top, form } = fs;
    const file = L.rel(top.mod.path);
    const bad = (what, message, line) => R.violation({ file, line: line || 0, key: `${def.name}|${what}`, message });
    const seq = (outs, fns) => fns.reduce((os, f) => I.bind(os, (s) => fs.finish(f(s))), outs);

    // what the form shows
    const shown = {};
    for (const n of ['valid', 'changed']) {
        const src = memberOf(I, fs.state(), form.ret, n);
        shown[n] = [...reads(I, () => valuesOf(I, fs.state(), src))].filter((k) => k.startsWith('ref#')).map((k) => +k.slice(4));
        if (shown[n].length !== 1) throw new Error(`form ${n} reads ${shown[n].length} cells`);
    }
    // what the control announces
    const mine = {};
    for (const n of ['valid', 'changed']) {
        mine[n] = { ws: [], vals: new Map(), deps: new Set() };
        for (const x of fs.watchers()) {
            if (x.inst !== top) continue;
            let hit = false;
            fs.during(
                (e) => {
                    if (e.t === 'emit' && e.inst === top && e.name === 'update:' + n) hit = true;
                },
                () => fs.runWatcher(x),
            );
            if (hit) {
                mine[n].ws.push(x);
                for (const d of x.deps) mine[n].deps.add(d);
            }
        }
        if (!mine[n].ws.length) return bad(`${n} announced`, `${def.name} never announces update:${n}`);
    }
    // own current value of valid / changed, as announced
    const current = (n, st) => {
        const keys = new Set();
        for (const x of mine[n].ws)
            fs.during(
                (e, s) => {
                    if (e.t === 'emit' && e.inst === top && e.name === 'update:' + n) keys.add(keyOf(I.norm(s, e.args[1] !== undefined ? e.args[1] : e.args[0])));
                },
                () => runW(x, st.clone()),
            );
        return keys;
    };
    const vals = (w, st) => {
        const o = fs.world.sourceVals(w, st)[0];
        return o.arr ? I.mkArr(st, o.v) : o.v;
    };
    function runW(x, st, old) {
        return I.invoke(x.w.cb, U, x.w.source ? [vals(x.w, st), old || Sym(`old#${x.w.id}`)] : [], st, x.w.node);
    }

    const withForm = (contents, id) => {
        const st = fs.state();
        for (const n of ['valid', 'changed']) {
            const o = I.mkObj(st, Object.entries(contents).map(([k, v]) => [k, v]));
            st.live.set(shown[n][0], { ...I.getCell(st, shown[n][0]), value: o });
        }
        return st;
    };
    const content = (st, n) => {
        const v = I.getCell(st, shown[n][0]).value;
        const c = v.id !== undefined ? I.getCell(st, v.id) : null;
        return c && c.t === 'obj' ? c.props : new Map();
    };
    const idProp = (id, more = {}) => ({ props: (inst, name) => (inst === top && name === 'id' ? Lit(id) : inst === top && more[name] !== undefined ? more[name] : null) });
    const other = Sym('another control', { nonnull: true, isBool: true });
    const hooks = (...names) => fs.hooks(...names).filter((h) => h.inst === top);
    const runHooks = (hs, st) => seq([{ s: st, v: U }], hs.map((h) => (s) => I.invoke(h.fn, U, [], s, h.node)));
    const holds = (st, n, id, what) => {
        R.count('obligations', 1);
        const c = content(st, n);
        const v = c.get(id);
        if (!v) return bad(`${what} ${n}`, `${def.name} does not put its ${n} state under its identifier in the form ${what}`);
        const cur = current(n, st);
        if (!cur.has(keyOf(I.norm(st, v)))) bad(`${what} ${n} value`, `${def.name} reports ${keyOf(v).slice(0, 60)} as its ${n} state to the form ${what}, it announces ${[...cur].join(' / ').slice(0, 80)}`);
        if (!c.has('z')) bad(`${what} ${n} others`, `${def.name} removes another control's ${n} state from the form ${what}`);
        return null;
    };

    // registered once mounted
    const mountHooks = hooks('onBeforeMount', 'onMounted');
    fs.under(idProp('c'), () => {
        for (const o of runHooks(mountHooks, withForm({ z: other }))) {
            R.count('paths', 1);
            for (const n of ['valid', 'changed']) holds(o.s, n, 'c', 'when mounted');
        }
    });
    // without an identifier of its own it still has one nobody else has
    fs.under(idProp(''), () => {
        for (const o of runHooks(mountHooks, withForm({ z: other })))
            for (const n of ['valid', 'changed']) {
                R.count('obligations', 1);
                const lit = [...content(o.s, n).keys()].filter((k) => k !== 'z' && typeof k === 'string' && !/^[«\[]/.test(k));
                if (lit.length) bad(`anonymous ${n}`, `every ${def.name} without an identifier registers its ${n} state under "${lit[0]}"`);
            }
    });
    // gone when unmounted
    fs.under(idProp('c'), () => {
        for (const o of runHooks(hooks('onBeforeUnmount', 'onUnmounted'), withForm({ c: other, z: other }))) {
            R.count('paths', 1);
            for (const n of ['valid', 'changed']) {
                R.count('obligations', 1);
                const c = content(o.s, n);
                if (c.has('c')) bad(`unmount ${n}`, `${def.name} stays in the form's ${n} state after it is unmounted`);
                if (!c.has('z')) bad(`unmount ${n} others`, `unmounting ${def.name} removes another control from the form`);
            }
        }
    });
    // follows changes
    fs.under(idProp('c'), () => {
        for (const n of ['valid', 'changed'])
            for (const d of mine[n].deps) {
                const ws = fs.watchers().filter((x) => x.inst === top && x.deps.has(d));
                const before = Sym('an earlier state', { nonnull: true, isBool: true });
                const st = withForm({ c: before, z: other });
                for (const o of seq([{ s: st, v: U }], ws.map((x) => (s) => runW(x, s)))) {
                    R.count('paths', 1);
                    holds(o.s, n, 'c', `when its ${n} state changes`);
                }
            }
    });
    // moves to a new identifier
    const renames = fs.watchers().filter((x) => x.inst === top && x.deps.has(`prop:${top.uid}.id`));
    const olds = new Map();
    const st0 = withForm({ c: other, z: other });
    fs.under(idProp('c'), () => renames.forEach((x) => x.w.source && olds.set(x, vals(x.w, st0))));
    fs.under(idProp('d'), () => {
        for (const o of seq([{ s: st0, v: U }], renames.map((x) => (s) => runW(x, s, olds.get(x))))) {
            R.count('paths', 1);
            for (const n of ['valid', 'changed']) {
                holds(o.s, n, 'd', 'when its identifier changes');
                if (content(o.s, n).has('c')) bad(`rename ${n}`, `${def.name} stays in the form's ${n} state under its old identifier`);
            }
        }
    });

    // commands of the form
    const V = fs.cellsRaising((n) => n === 'update:modelValue');
    const wrappers = fs.b.all.filter((i) => i !== top && i.parent === top && i.def.props.has('messages'));
    const ruleCells = [...mine.valid.deps].filter((d) => d.startsWith('ref#'));
    // the element that shows the messages, and the lists it takes them from
    const speakers = wrappers.filter((w) => {
        const got = reads(I, () => w.readProp('messages', fs.state(), I));
        return ruleCells.some((c) => got.has(c));
    });
    if (wrappers.length && !speakers.length) bad('messages', `nothing ${def.name} renders shows what its rules say`);
    const mark = (st) => {
        const got = reads(I, () => speakers.forEach((w) => w.readProp('messages', fs.state(), I)));
        const marks = [];
        for (const k of got) {
            if (!k.startsWith('ref#')) continue;
            const id = +k.slice(4);
            const c0 = I.getCell(fs.b.setupState, id);
            if (!c0 || !c0.value || c0.value.k !== 'arr') continue;
            const m = { ...Sym(`message of ${k}`, { nonnull: true }), rule: ruleCells.includes(k) };
            marks.push(m);
            st.live.set(id, { ...I.getCell(st, id), value: I.mkArr(st, [m]) });
        }
        return marks;
    };
    const command = (name) => {
        const cells = new Map();
        const m = memberOf(I, fs.state(), form.ret, name);
        if (!isFn(m)) throw new Error(`form has no ${name}`);
        fs.during(
            (e, st) => {
                const c = fs.cellOf(e);
                if (c && e.t === 'write') cells.set(c, e);
            },
            () => fs.runFn(m, []),
        );
        return cells;
    };
    for (const name of ['validate', 'clear']) {
        const cells = command(name);
        const ws = fs.watchers().filter((x) => x.inst === top && [...x.deps].some((d) => cells.has(d)));
        R.count('obligations', 1);
        if (!ws.length) {
            bad(`${name} command`, `${def.name} does not react to ${name} of the form`);
            continue;
        }
        const touched = new Set();
        const start = fs.state();
        const marks = name === 'validate' ? mark(start) : null;
        const outs = fs.during(
            (e, st) => {
                const c = fs.cellOf(e);
                if (c && !fs.isNoop(e, st)) touched.add(c);
                if (e.t === 'emit' && e.inst === top && e.name === 'update:modelValue') for (const v of V.keys()) touched.add(v);
            },
            () => seq([{ s: start, v: U }], ws.map((x) => (s) => runW(x, s))),
        );
        for (const o of outs) {
            R.count('paths', 1);
            if (name === 'validate')
                for (const w of speakers)
                    for (const r of w.readProp('messages', o.s.clone(), I)) {
                        R.count('obligations', 1);
                        const v = I.norm(r.s, r.v);
                        const c = v.k === 'arr' ? I.getCell(r.s, v.id) : null;
                        const shows = new Set(c && c.elems ? c.elems.map(keyOf) : []);
                        for (const m of marks) if (!shows.has(keyOf(m))) bad(`validate messages${m.rule ? '' : ' own'}`, `validate of the form does not make ${def.name} show ${m.rule ? 'what its rules say' : 'its messages'}`);
                    }
            if (name === 'clear' && speakers.length) {
                R.count('obligations', 1);
                const got = reads(I, () => speakers.forEach((w) => w.readProp('messages', o.s.clone(), I)));
                if (ruleCells.some((c) => got.has(c))) bad('clear messages', `clear of the form leaves ${def.name} showing what its rules say`);
            }
            if (name !== 'clear') continue;
            R.count('obligations', 1);
            for (const x of mine.changed.ws) {
                const v = I.norm(o.s, vals(x.w, o.s));
                if (!(v.k === 'lit' && v.v === false)) bad('clear changed', `clear of the form leaves ${def.name} changed`);
            }
        }
        if (name === 'clear') {
            R.count('obligations', 1);
            if (V.size && ![...touched].some((c) => V.has(c))) bad('clear value', `clear of the form leaves the value of ${def.name}`);
        }
    }

    // settings take part in validation
    const required = ['rules', 'messages', 'noDefaultRules', 'required', 'min', 'max', 'minLength', 'maxLength'].filter((p) => def.props.has(p));
    const got = reads(I, () => runHooks(mountHooks, fs.b.setupState.clone()));
    // limits may also be enforced when the user enters a value
    const bounds = reads(I, () => fs.b.entries.forEach((e) => fs.runEntry(e)));
    for (const p of required) {
        R.count('settings', 1);
        if (/^(min|max)/.test(p) && bounds.has(`prop:${top.uid}.${p}`)) continue;
        if (!got.has(`prop:${top.uid}.${p}`)) bad(`setting ${p}`, `${def.name} validates without looking at its ${p}`);
    }
    if (def.props.has('state')) {
        R.count('settings', 1);
        const c = I.getCell(fs.state(), top.ret.id);
        const rd = reads(I, () => {
            for (const v of c.props.values()) valuesOf(I, fs.state(), v);
        });
        if (!rd.has(`prop:${top.uid}.state`)) bad('setting state', `${def.name} never looks at its state`);
    }
    // with the default rules opted out only the given rules speak
    if (def.props.has('noDefaultRules') && ruleCells.length === 1) {
        const rule = Sym('given rule', { nonnull: true, supplied: 'rules' });
        const rc = +ruleCells[0].slice(4);
        const own = {};
        for (const off of [true, false])
            for (const given of [true, false]) {
                const scn = {
                    props: (inst, name, st) => {
                        if (inst !== top) return null;
                        if (name === 'rules') return I.mkArr(st, given ? [rule] : []);
                        if (name === 'noDefaultRules') return Lit(off);
                        return null;
                    },
                };
                const kinds = new Set();
                fs.under(scn, () => {
                    let asked = false;
                    const see = (s, x) => {
                        const t = x.id !== undefined ? memberOf(I, s, x, 'text') : x;
                        const k = keyOf(I.norm(s, t));
                        if (!/given rule/.test(k)) kinds.add(k);
                    };
                    let outs;
                    const used = reads(I, () => (outs = fs.during(
                        (e) => {
                            if (e.t === 'call' && e.f && e.f.supplied === 'rules') asked = true;
                        },
                        () => runHooks(mountHooks, fs.b.setupState.clone()),
                    )));
                    own[`${off}${given}`] = used;
                    R.count('obligations', 1);
                    if (given && !asked) bad(`given rules ${off}`, `${def.name}${off ? ' without its default rules' : ''} does not ask the rules given to it`);
                    for (const o of outs) {
                        R.count('paths', 1);
                        const v = I.getCell(o.s, rc).value;
                        const c = v.k === 'arr' ? I.getCell(o.s, v.id) : null;
                        for (const x of (c && c.elems) || []) see(o.s, x);
                    }
                });
                if (off && kinds.size) bad('opt-out', `${def.name} applies a default rule (${[...kinds][0].slice(0, 60)}) although they are opted out`);
            }
        for (const k of own.falsefalse) if (k.startsWith(`prop:${top.uid}.`) && !own.falsetrue.has(k)) bad('default rules', `${def.name} no longer looks at its ${k.split('.').pop()} when rules are given`);
    }
    // form-wide flags: what the control derives from its own flag is on although its own flag is off
    for (const flag of ['disabled', 'readonly']) {
        if (!def.props.has(flag)) continue;
        for (const { later, pins } of formPins(fs, form, fs.b.setupState, flag)) {
            R.count('obligations', 1);
            const states = [new Map(), pins].map((p) => {
                const res = new Map();
                fs.under({ pins: p, props: (inst, name) => (inst === top && ['disabled', 'readonly'].includes(name) ? FALSE : inst === form && name === flag ? Lit(p === pins) : null) }, () => {
                    const st = fs.state();
                    for (const [k, v] of I.getCell(st, top.ret.id).props) {
                        if (v.k !== 'computed') continue;
                        let got = [];
                        const used = reads(I, () => (got = valuesOf(I, st.clone(), v)));
                        res.set(k, { own: used.has(`prop:${top.uid}.${flag}`), v: got.map((o) => keyOf(I.norm(o.s, o.v))).join() });
                    }
                });
                return res;
            });
            const on = keyOf(TRUE);
            const follows = (k) => (states[0].get(k).own || states[1].get(k).own) && states[1].get(k).v === on && states[0].get(k).v !== on;
            if (![...states[1].keys()].some(follows)) bad(`${flag} of the form`, `${def.name} does not become ${flag} when the form${later ? ' later' : ''} is`);
        }
    }
}

// the form's own state follows from what the controls put in
function analyseForm(fs, R) {
    const { I, form } = fs;
    const file = L.rel(form.mod.path);
    const bad = (what, message) => R.violation({ file, line: 0, key: `VsForm|${what}`, message });
    const cells = {};
    for (const n of ['valid', 'changed']) cells[n] = +[...reads(I, () => valuesOf(I, fs.state(), memberOf(I, fs.state(), form.ret, n)))].filter((k) => k.startsWith('ref#'))[0].slice(4);
    if (cells.valid === cells.changed) return bad('one cell', 'the form keeps validity and changed state in the same place');
    const combos = [[], ['t'], ['f'], ['t', 't'], ['t', 'f'], ['f', 't'], ['f', 'f'], ['t', 't', 'f'], ['f', 't', 't'], ['t', 'f', 't']];
    for (const c of combos) {
        const put = (st, n) => {
            const o = I.mkObj(st, c.map((x, i) => ['c' + i, Lit(x === 't')]));
            st.live.set(cells[n], { ...I.getCell(st, cells[n]), value: o });
        };
        for (const [n, want] of [['valid', c.every((x) => x === 't')], ['changed', c.some((x) => x === 't')]]) {
            const st = fs.state();
            put(st, n);
            R.count('form_cases', 1);
            for (const o of valuesOf(I, st, memberOf(I, st, form.ret, n))) {
                const v = I.norm(o.s, o.v);
                if (!(v.k === 'lit' && v.v === want)) bad(`${n} of ${c.join('')}`, `the form is not ${want ? '' : 'un'}${n === 'valid' ? 'valid' : 'changed'} when its controls are [${c.map((x) => (x === 't' ? n : 'not ' + n)).join(', ')}]`);
            }
        }
        // validate answers and names the offenders
        const st = fs.state();
        put(st, 'valid');
        const want = c.map((x, i) => (x === 'f' ? 'c' + i : null)).filter(Boolean);
        const errs = [];
        R.count('form_cases', 1);
        const outs = fs.during(
            (e, s) => {
                if (e.t === 'emit' && e.inst === form && e.name === 'error') {
                    const a = e.args[1] !== undefined ? e.args[1] : e.args[0];
                    errs.push(a.k === 'arr' && I.elements(s, a) ? I.elements(s, a).map((v) => v.v).sort().join() : keyOf(a));
                }
            },
            () => I.invoke(memberOf(I, st, form.ret, 'validate'), U, [], st, null),
        );
        if (want.length ? errs.length !== outs.length || errs.some((e) => e !== want.join()) : errs.length) bad(`error of ${c.join('')}`, `validate of a form whose controls are [${c.join()}] reports [${errs.join(' | ')}] as invalid instead of [${want.join()}]`);
        for (const o of outs) {
            let v = o.v;
            if (v.k === 'promise') v = v.v;
            v = I.norm(o.s, v);
            if (!(v.k === 'lit' && v.v === !want.length)) bad(`answer of ${c.join('')}`, `validate of a form whose controls are [${c.join()}] answers ${keyOf(v)}`);
        }
    }
    // the commands are noticed every time, and are different commands
    const writes = {};
    for (const name of ['validate', 'clear']) {
        writes[name] = new Map();
        fs.during(
            (e, st) => {
                if (e.t !== 'write') return;
                const c = fs.cellOf(e);
                const v = I.norm(st, e.v);
                const o = I.norm(st, e.old || U);
                writes[name].set(c, !(v.k === 'lit') && keyOf(v) !== keyOf(o));
            },
            () => fs.runFn(memberOf(I, fs.state(), form.ret, name), []),
        );
        R.count('obligations', 1);
        if (![...writes[name].values()].some(Boolean)) bad(`${name} flag`, `${name} of the form does not change anything its controls could notice each time`);
    }
    for (const c of writes.validate.keys()) if (writes.clear.has(c)) bad('commands', 'validate and clear of the form cannot be told apart by its controls');
    // form-wide flags reach the store
    for (const flag of ['disabled', 'readonly'])
        for (const { later, pins } of formPins(fs, form, fs.state(), flag)) {
            R.count('obligations', 1);
            if (!pins.size) bad(`${flag}${later ? ' later' : ''}`, `${flag} of the form${later ? ' switched on later' : ''} is not passed on to its controls`);
        }
}

exports.run = () => {
    const R = report();
    const w0 = new World({});
    const files = L.sourceFiles(L.UI).filter((f) => f.endsWith('.vue'));
    const defs = files.map((f) => ({ f, def: compDef(w0.I, L.loadModule(f)) }));
    const formFile = defs.find((d) => d.def.name === 'VsForm').f;
    let formDone = false;
    for (const { f, def } of defs) {
        if (!(def.props.has('rules') && def.emits && def.emits.has('update:modelValue'))) continue;
        R.count('controls', 1);
        const fs = mountInForm(formFile, f);
        if (!formDone) analyseForm(fs, R);
        formDone = true;
        const before = R.violations ? R.violations.length : 0;
        analyse(fs, def, R);
        R.sample(`${def.name}: ${fs.watchers().length} watchers, ${fs.hooks('onMounted', 'onBeforeUnmount').length} hooks`);
        R.stats(fs.I.stats);
    }
    R.require('controls', 8);
    R.require('obligations', 100);
    R.require('form_cases', 20);
    return R.result({
        rule: 'Each control, mounted inside the form, on every path: its mount hooks leave its current validity and changed state in the two collections the form aggregates, under its identifier (or one nobody else has); watchers over what those states depend on put the new state there; renaming moves the entry; unmounting removes it and nothing else. The cells validate and clear of the form change are watched by the control: validate makes the messages handed to its wrapper include those of its rules, clear resets value, changed state and messages. Its rules, messages, required, bounds and default-rule opt-out are read by validation, and with the opt-out only given rules speak. The form is valid/changed exactly when all/some entries are, and validate answers and names the invalid ones.',
        explanation: 'Abstract interpretation of every control mounted inside VsForm over opaque values; the entries of the form store are inspected in each resulting abstract state.',
        assumptions: ['watchers run when one of the cells or props their source reads changes'],
    });
};
