'use strict';
// C20: the value of a choice control is what was chosen among its options.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { Sym, Lit, U, NULL, TRUE, FALSE, keyOf } = A;
const { Sim } = require('../lib/effects.cjs');
const { report } = require('../lib/report.cjs');

const given = (key) => Sym(key, { nonnull: true, ident: key });
// equal to a given value, but not the same object
const copy = (key) => Sym(`copy of ${key}`, { nonnull: true, ident: key, copy: true });
const OPEN = 'a list that is not followed';
const WANTED = 'which options are off';

class Choice {
    constructor(R, comp, P) {
        this.R = R;
        this.file = L.path.join(L.UI, 'components', comp);
        this.rel = L.rel(this.file);
        this.name = L.path.basename(comp, '.vue');
        this.P = { options: [], off: [], match: null, objects: false, props: {}, ...P };
        const self = this;
        this.sim = new Sim({
            awaitThrows: () => false,
            knownSets: true,
            keepEvent: (e) => e.t === 'emit' && e.inst === self.sim.top,
            decide: (v, st) => this.decide(v, st),
            intercept: (f, thisv, args, st, node, I) => {
                const m = f.mod ? f.mod.rel : '';
                const name = f.node ? I.fnName(f.node) : '';
                // a digest tells nothing certain about its text
                if (/utils\/string-util/.test(m) && args.length) return [{ s: st, v: Sym(`${name}(${args.map((a) => keyOf(I.norm(st, a)))})`, { nonnull: true, digest: true }) }];
                return null;
            },
            onOpaque: ({ name, f, fk, args }, st, I) => {
                // a field of an option
                if (/#get$/.test(fk) && args.length >= 2 && this.P.objects) {
                    const [o, p] = args.map((a) => I.norm(st, a));
                    if (o.ident && /^opt-/.test(o.ident) && p.k === 'lit') return [{ s: st, v: given(`${o.ident}.${p.v}`) }];
                }
                const id = (v) => (v ? I.norm(st, v).ident : null);
                if (f && keyOf(f) === WANTED) return [{ s: st, v: Lit(this.P.off.includes(id(args[0]))) }];
                if (name === 'match' && this.P.match && args.length) return [{ s: st, v: Lit(this.P.match.some((o) => keyOf(I.norm(st, args[0])).includes(o))) }];
                return null;
            },
        });
        this.I = this.sim.I;
    }
    decide(v, st) {
        if (v.eq && v.eq.of) {
            const of = v.eq.of;
            if (of.typeofOf === WANTED) return v.eq.lit === 'function';
            if (of.typeofOf && /^opt-/.test(of.typeofOf)) return v.eq.lit === (this.P.objects && !/\./.test(of.typeofOf) ? 'object' : 'string');
            if (of.ident || of.parts || of.digest) return typeof v.eq.lit === 'string' && !of.ident ? undefined : false;
            return undefined;
        }
        if (v.cmp) {
            const [a, b] = [v.cmp.a, v.cmp.b];
            if (a.ident || b.ident) return a.ident === b.ident && !a.copy === !b.copy;
            if (a.digest || b.digest || a.parts || b.parts) return keyOf(a) === keyOf(b);
            return undefined;
        }
        if (v.equalOf) {
            const [a, b] = v.equalOf.map((x) => this.I.norm(st, x));
            const k = (x) => this.I.deepKey(st, x).replace(/copy of /g, '');
            const known = (x) => x.ident || x.k === 'lit' || x.k === 'arr' || x.digest || x.parts;
            if (a.k === 'sym' && /^old#/.test(keyOf(a))) return false;
            if (b.k === 'sym' && /^old#/.test(keyOf(b))) return false;
            return known(a) && known(b) ? k(a) === k(b) : undefined;
        }
        if (v.k === 'sym' && /^isObject\(/.test(v.key)) return this.P.objects && /^isObject\(opt-\w+\)/.test(v.key);
        if (v.k === 'sym' && /^isArray\(opt-/.test(v.key)) return false;
        if (v.ident || v.digest) return true;
        if (v.instOf !== undefined) return false;
        return undefined;
    }
    load() {
        const { sim, I, P } = this;
        this.scn = {
            props: (inst, n, st) => {
                if (inst !== sim.top && inst.parent) return null;
                if (n === 'options') return I.mkArr(st, P.options.map((o) => given(o)));
                if (n === 'rules' || n === 'messages') return I.mkArr(st, []);
                if (n === 'modelModifiers') return I.mkObj(st, []);
                if (n === 'modelValue') return P.value ? P.value(I, st) : NULL;
                const fixed = { id: Lit('c'), optionsDisabled: P.off.length ? Sym(WANTED, { nonnull: true }) : FALSE, optionLabel: Lit(P.objects ? 'l' : ''), optionValue: Lit(P.objects ? 'v' : ''), required: FALSE, noDefaultRules: FALSE, disabled: FALSE, readonly: FALSE, beforeChange: NULL, checked: FALSE, groupBy: NULL, search: FALSE, min: Lit(0), max: Lit(100), ...P.props };
                return inst.def.props.has(n) && fixed[n] ? fixed[n] : null;
            },
        };
        return sim.under(this.scn, () => {
            // a set-up of its own needs no options
            const options = P.options;
            P.options = [];
            sim.load(this.file);
            const { top } = sim;
            const cells = [];
            for (const w of sim.watcherEffects())
                if (w.emits.some((m) => m.inst === top && m.name === 'update:modelValue'))
                    for (const d of w.deps) if (/^ref#/.test(d) && !cells.includes(Number(d.slice(4)))) cells.push(Number(d.slice(4)));
            P.options = options;
            if (!cells.length) throw new Error(`no value found in ${this.rel}`);
            this.cells = cells;
            let outs = [{ s: sim.b.setupState.clone(), v: U }];
            for (const w of top.watchers)
                if (w.immediate && w.source && w.cb && w.cb.k === 'fn')
                    outs = this.step(outs, (s) => sim.world.sourceVals(w, s).flatMap((o) => I.invoke(w.cb, U, [o.arr ? I.mkArr(o.s, o.v) : o.v, U], o.s, w.node)));
            // what an instance does when it appears
            outs = this.step(outs, (s) => sim.hooks('onBeforeMount', 'onMounted').filter((x) => x.inst === top).reduce((os, h) => I.bind(os, (s2) => I.invoke(h.fn, U, [], s2, h.node)), [{ s, v: U }]));
            this.start = outs;
            return this;
        });
    }
    // a step of the user or the application and what it triggers
    step(outs, f) {
        const { sim, I } = this;
        return sim.under(this.scn, () => I.bind(outs, (s) => {
            const before = s.clone();
            return sim.world.flush(before, sim.finish(f(s.clone())), [sim.top]).filter((o) => !o.c).map((o) => ({ s: o.s, v: U }));
        }));
    }
    // the application gives other options
    reoption(outs, options) {
        const { sim, I, P } = this;
        return sim.under(this.scn, () => I.bind(outs, (s) => {
            const old = sim.watchers().filter((x) => x.inst === sim.top && x.w.source).map((x) => ({ x, v: sim.world.sourceVals(x.w, s.clone())[0] }));
            P.options = options;
            const before = s.clone();
            let res = [{ s: s.clone(), v: U }];
            for (const { x, v } of old) {
                const now = sim.world.sourceVals(x.w, s.clone())[0];
                const k = (o) => (o.arr ? o.v.map((e) => I.deepKey(o.s, e)).join('|') : I.deepKey(o.s, o.v));
                if (!v || !now || k(v) === k(now)) continue;
                res = I.bind(res, (s2) => sim.world.sourceVals(x.w, s2).flatMap((o) => sim.finish(I.invoke(x.w.cb, U, [o.arr ? I.mkArr(o.s, o.v) : o.v, Sym(`old#${x.w.id}`)], o.s, x.w.node))));
            }
            return sim.world.flush(before, res, [sim.top]).filter((o) => !o.c).map((o) => ({ s: o.s, v: U }));
        }));
    }
    names(s, v) {
        v = this.I.norm(s, v);
        if (v.k === 'arr' && !this.I.elements(s, v)) return OPEN;
        if (v.k === 'arr') return this.I.elements(s, v).map((e) => this.I.norm(s, e).ident || keyOf(this.I.norm(s, e)).slice(0, 40)).join();
        if (v.k === 'lit') return String(v.v);
        return v.ident || keyOf(v).slice(0, 60);
    }
    // the application gives another value
    become(outs, value) {
        return this.step(outs, (s) => {
            for (const id of this.cells) s.live.set(id, { ...this.I.getCell(s, id), value: value(this.I, s) });
            return [{ s, v: U }];
        });
    }
    // the value in each outcome
    values(outs) {
        return outs.flatMap((o) => this.cells.map((id) => this.names(o.s, this.I.getCell(o.s, id).value)));
    }
    expect(outs, want, what) {
        this.R.count('steps');
        want = Array.isArray(want) ? want.map((o) => (this.P.objects ? `${o}.v` : o)).join() : this.P.objects && /^opt-/.test(want) ? `${want}.v` : String(want);
        const got = [...new Set(this.values(outs))];
        this.R.count('paths', outs.length);
        if (got.length === 1 && got[0] === want) return true;
        if (got.includes(OPEN)) {
            this.R.count('undecided');
            return false;
        }
        this.bad(what, `the value is ${got.map((x) => `[${x}]`).join(' or ') || 'undetermined'} instead of [${want}]`);
        return false;
    }
    bad(what, message) {
        this.R.violation({ file: this.rel, line: 1, key: `${this.name}|${what}`, message: `${this.name}: ${what}: ${message}` });
    }
    child(name) {
        const c = this.sim.b.all.find((i) => i.def.name === name && i.parent);
        if (!c) throw new Error(`${this.name} has no ${name}`);
        return c;
    }
    emit(outs, inst, name, args) {
        return this.step(outs, (s) => inst.emitFn().impl(this.I, s, [Lit(name), ...args(s)], null));
    }
    list(s, inst, prop) {
        const { I, sim } = this;
        return sim.under(this.scn, () => {
            const r = inst.readProp(prop, s.clone(), I);
            if (r.length !== 1) return null;
            const v = I.norm(r[0].s, r[0].v);
            const items = v.k === 'arr' ? I.elements(r[0].s, v) : null;
            return items ? { s: r[0].s, items } : null;
        });
    }
    field(s, o, name) {
        return this.I.norm(s, this.I.getMember(s, o, name, null, {})[0].v);
    }
}

// texts that differ whatever their unknown parts are
function differ(a, b) {
    const parts = (v) => (v.parts ? v.parts : [v]);
    const A1 = parts(a), B1 = parts(b);
    const end = (p) => (p[p.length - 1].k === 'lit' ? String(p[p.length - 1].v) : '');
    const begin = (p) => (p[0].k === 'lit' ? String(p[0].v) : '');
    if (A1.length === 1 && B1.length === 1 && A1[0].k === 'lit' && B1[0].k === 'lit') return A1[0].v !== B1[0].v;
    if ([...A1, ...B1].every((p) => p.unique) && keyOf(a) !== keyOf(b)) return true;
    const ea = end(A1), eb = end(B1), ba = begin(A1), bb = begin(B1);
    return (!ea.endsWith(eb) && !eb.endsWith(ea)) || (!ba.startsWith(bb) && !bb.startsWith(ba));
}

const all = (n) => Array.from({ length: n }, (_, i) => `opt-${'abcdefghijklmn'[i]}`);
const list = (...names) => (I, st) => I.mkArr(st, names.map((n) => given(n)));

function select(R, objects) {
    const make = (P) => new Choice(R, 'vs-select/VsSelect.vue', { objects, ...P, value: P.value && ((I, st) => P.value(I, st, objects)) }).load();
    const val = (n) => (objects ? `${n}.v` : n);
    const several = (...names) => (I, st) => I.mkArr(st, names.map((n) => given(val(n))));
    const one = (n) => () => given(val(n));
    const offered = (c, outs) => outs.map((o) => c.list(o.s, c.child('VsGroupedList'), 'items'));
    // chooses an option that is on offer, as the list of options reports it
    const choose = (c, outs, name) =>
        c.emit(outs, c.child('VsGroupedList'), 'click-item', (s) => {
            const l = c.list(s, c.child('VsGroupedList'), 'items');
            const it = l && l.items.find((x) => c.field(l.s, x, 'item').ident === name);
            if (!it) throw new Error(`${name} is not offered`);
            return [c.I.mkObj(s, ['id', 'item', 'label', 'value', 'index', 'disabled'].map((k) => [k, c.field(l.s, it, k)]))];
        });
    const shown = (c, outs, want, what) => {
        for (const o of outs) {
            R.count('views');
            const l = c.list(o.s, c.child('VsSelectTrigger'), 'selectedOptions');
            if (!l) {
                R.count('undecided');
                continue;
            }
            const got = l.items.map((x) => c.field(l.s, x, 'item').ident).join();
            if (got !== want.join()) c.bad(what, `the control shows [${got}] instead of [${want.join()}]`);
        }
    };
    const selectAll = (c, outs) => {
        const es = c.sim.b.entries.filter((e) => e.inst === c.sim.top && e.event === 'click');
        if (es.length !== 1) throw new Error('no way to select all found');
        return c.step(outs, (s) => c.sim.world.runEntry(es[0], s));
    };
    const search = (outs, c) => outs.map((o) => {
        const s = o.s.clone();
        s.live.each((id, x) => {
            if (x.t === 'ref' && x.tplRef && /search/i.test(x.tplRef)) s.live.set(id, { ...x, value: Sym(`element ${x.tplRef}`, { nonnull: true }) });
        });
        return { s, v: U };
    });
    const abcd = all(4);

    // one value
    let c = make({ options: abcd, off: ['opt-b'], value: one('opt-a'), props: { multiple: FALSE } });
    c.expect(c.start, 'opt-a', 'a value given at the start');
    shown(c, c.start, ['opt-a'], 'a value given at the start');
    let outs = choose(c, c.start, 'opt-c');
    c.expect(outs, 'opt-c', 'choosing another option');
    shown(c, outs, ['opt-c'], 'choosing another option');
    c.expect(choose(c, c.start, 'opt-b'), 'opt-a', 'choosing a disabled option');
    c.expect(choose(c, outs, 'opt-c'), 'opt-c', 'choosing the chosen option again');
    const moved = c.reoption(outs, ['opt-e', ...abcd]);
    if (c.expect(moved, 'opt-c', 'options moving to other places')) shown(c, moved, ['opt-c'], 'options moving to other places');
    c.P.options = abcd;
    c.expect(c.reoption(outs, ['opt-a', 'opt-b']), 'null', 'the chosen option vanishing');
    c.P.options = abcd;
    c = make({ options: abcd, value: () => copy(val('opt-c')), props: { multiple: FALSE } });
    c.expect(c.start, 'opt-c', 'a value equal to that of an option');
    shown(c, c.start, ['opt-c'], 'a value equal to that of an option');
    c = make({ options: abcd, value: (I, st) => I.mkArr(st, ['opt-c', 'opt-a'].map((n) => copy(val(n)))), props: { multiple: TRUE } });
    c.expect(c.start, ['opt-c', 'opt-a'], 'values equal to those of options');
    shown(c, c.start, ['opt-c', 'opt-a'], 'values equal to those of options');
    c.expect(choose(c, c.start, 'opt-c'), ['opt-a'], 'choosing an option an equal value stands for');
    c = make({ options: abcd, value: one('opt-a'), props: { multiple: FALSE } });
    for (const [how, v] of [['the value', given], ['a value equal to that', copy]]) {
        const later = c.become(c.start, () => v(val('opt-d')));
        c.expect(later, 'opt-d', `${how} of another option arriving later`);
        shown(c, later, ['opt-d'], `${how} of another option arriving later`);
    }
    c.expect(c.become(c.start, () => given(val('opt-n'))), 'null', 'a value that is not offered arriving later');
    c = make({ options: abcd, value: one('opt-n'), props: { multiple: FALSE } });
    c.expect(c.start, 'null', 'a value that is not offered');
    R.stats(c.I.stats);

    // several values
    c = make({ options: abcd, off: ['opt-b'], value: several('opt-d'), props: { multiple: TRUE, selectAll: TRUE } });
    c.expect(c.start, ['opt-d'], 'a list given at the start');
    outs = choose(c, c.start, 'opt-a');
    c.expect(outs, ['opt-d', 'opt-a'], 'choosing one more option');
    shown(c, outs, ['opt-d', 'opt-a'], 'choosing one more option');
    c.expect(choose(c, outs, 'opt-d'), ['opt-a'], 'choosing a chosen option of several');
    c.expect(choose(c, outs, 'opt-b'), ['opt-d', 'opt-a'], 'choosing a disabled option of several');
    c.expect(c.emit(outs, c.child('VsSelectTrigger'), 'deselect', (s) => {
        const l = c.list(s, c.child('VsSelectTrigger'), 'selectedOptions');
        return [l && l.items.length ? c.field(l.s, l.items[0], 'id') : U];
    }), ['opt-a'], 'removing the first chosen option');
    const every = selectAll(c, outs);
    c.expect(every, ['opt-d', 'opt-a', 'opt-c'], 'selecting all');
    c.expect(selectAll(c, every), [], 'selecting all once more');
    const moved2 = c.reoption(outs, ['opt-e', ...abcd]);
    if (c.expect(moved2, ['opt-d', 'opt-a'], 'several options moving to other places')) {
        shown(c, moved2, ['opt-d', 'opt-a'], 'several options moving to other places');
        c.expect(choose(c, moved2, 'opt-c'), ['opt-d', 'opt-a', 'opt-c'], 'choosing one more after the options moved');
    }
    c.P.options = abcd;
    c.expect(c.reoption(outs, ['opt-a', 'opt-b']), ['opt-a'], 'one of the chosen options vanishing');
    c.P.options = abcd;
    // only some options are found by a search
    c.P.match = ['opt-a', 'opt-b', 'opt-c'];
    const found = search(c.start, c);
    for (const l of offered(c, found)) if (!l || l.items.length !== 3) c.bad('searching', 'options that do not match are offered');
    const foundAll = selectAll(c, found);
    c.expect(foundAll, ['opt-d', 'opt-a', 'opt-c'], 'selecting all that were found');
    c.expect(selectAll(c, foundAll), ['opt-d'], 'selecting all that were found once more');
    c.expect(choose(c, found, 'opt-a'), ['opt-d', 'opt-a'], 'choosing one that was found');
    c.P.match = null;
    c = make({ options: abcd, value: several('opt-n', 'opt-c'), props: { multiple: TRUE } });
    c.expect(c.start, ['opt-c'], 'a list with values that are not offered');
    R.stats(c.I.stats);

    // options are told apart
    c = make({ options: all(12), value: several(), props: { multiple: TRUE } });
    for (const l of offered(c, c.start)) {
        const ids = l.items.map((x) => c.field(l.s, x, 'id'));
        for (let i = 0; i < ids.length; i++)
            for (let j = 0; j < i; j++) {
                R.count('pairs');
                if (!differ(ids[i], ids[j])) {
                    c.bad('telling options apart', `the options at ${j} and ${i} are told apart by texts that can be equal: ${keyOf(ids[j])} and ${keyOf(ids[i])}`);
                    i = ids.length;
                    break;
                }
            }
    }
}

// groups of boxes: the value is what a box reports, restricted to the options on offer
function group(R, comp, box, several) {
    const abcd = all(4);
    for (const objects of [false, true]) {
        const val = (n) => (objects ? `${n}.v` : n);
        const c = new Choice(R, comp, { objects, options: abcd, value: several ? (I, st) => I.mkArr(st, ['opt-a'].map((n) => given(val(n)))) : () => given(val('opt-a')) }).load();
        const to = (...names) => (s) => [several ? c.I.mkArr(s, names.map((n) => given(val(n)))) : given(val(names[0]))];
        c.expect(c.start, several ? ['opt-a'] : 'opt-a', 'a value given at the start');
        const outs = c.emit(c.start, c.child(box), 'update:modelValue', several ? to('opt-a', 'opt-c') : to('opt-c'));
        c.expect(outs, several ? ['opt-a', 'opt-c'] : 'opt-c', 'what a box reports');
        c.expect(c.reoption(outs, ['opt-e', 'opt-c', 'opt-a']), several ? ['opt-a', 'opt-c'] : 'opt-c', 'options moving to other places');
        c.P.options = abcd;
        c.expect(c.reoption(outs, ['opt-a', 'opt-b']), several ? ['opt-a'] : 'null', 'a chosen option vanishing');
        R.stats(c.I.stats);
    }
}

// a box that is ticked puts its value there, unticked takes it away
function box(R, comp) {
    const on = given('ticked'), off = given('unticked');
    const press = (c, outs) => {
        const go = (e) => c.step(outs, (s) => c.sim.world.runEntry(e, s));
        const is = String(c.values(outs));
        const done = c.sim.b.entries.filter((e) => e.inst === c.sim.top && /^(click|change|input|keydown)$/.test(e.event)).map(go);
        // the first entry that does something to the value
        return done.find((o) => c.values(o).some((v) => v !== is)) || done[0] || [];
    };
    let c = new Choice(R, comp, { value: () => off, props: { trueValue: on, falseValue: off, multiple: FALSE } }).load();
    c.expect(c.start, 'unticked', 'a value given at the start');
    let outs = press(c, c.start);
    c.expect(outs, 'ticked', 'ticking');
    c.expect(press(c, outs), 'unticked', 'unticking');
    c = new Choice(R, comp, { value: list('p', 'q'), props: { trueValue: on, falseValue: off, multiple: TRUE } }).load();
    outs = press(c, c.start);
    c.expect(outs, ['p', 'q', 'ticked'], 'ticking one of several');
    c.expect(press(c, outs), ['p', 'q'], 'unticking one of several');
    R.stats(c.I.stats);
}

module.exports = {
    run() {
        const R = report();
        for (const objects of [false, true]) select(R, objects);
        group(R, 'vs-checkbox/VsCheckboxSet.vue', 'VsCheckbox', true);
        group(R, 'vs-radio/VsRadioSet.vue', 'VsRadio', false);
        box(R, 'vs-checkbox/VsCheckbox.vue');
        box(R, 'vs-switch/VsSwitch.vue');
        R.require('steps', 50);
        R.require('pairs', 60);
        return R.result({
            rule: 'After every step of the user or the application the value of a choice control is the chosen one among its options: choosing, choosing again, disabled options, selecting all, searching, options moving or vanishing; options at different places are identified by texts that differ whatever their labels are.',
            explanation: 'Abstract interpretation of the choice controls. Options, their labels and values are opaque identities; the steps are the events of the parts the control is built from and changes of its options, followed by the watchers they trigger.',
            assumptions: ['values of different options differ', 'a digest of a text can collide'],
        });
    },
};
