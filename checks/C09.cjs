'use strict';
// C09: effective style set = base < given (named or inline) < dedicated props, looked up under the component's own name.
const A = require('../lib/absint.cjs');
const { Lit, U, keyOf } = A;
const L = require('../lib/load.cjs');
const { Unit } = require('../lib/unit.cjs');
const { Styled, Text, mark, styledComponents, shape, declaredSet } = require('../lib/style.cjs');

const { report } = require('../lib/report.cjs');

const LAYERS = ['base', 'given', 'props'];
const OTHER = 'VsOther', NAME = 'VsThing', VAR = '--vs-thing-';

class Resolver {
    constructor(R) {
        this.R = R;
        this.u = new Unit({ keepEvent: () => false, each: 60 });
        this.I = this.u.I;
        this.store = this.u.call(this.u.val('stores', 'useOptionsStore'), [], this.u.state())[0].v;
    }
    ref(s, v) {
        return { k: 'ref', id: this.I.alloc(s, { t: 'ref', value: v, name: 'given' }) };
    }
    obj(s, o) {
        return this.I.mkObj(s, Object.entries(o).map(([k, v]) => [k, v && v.k ? v : v === undefined ? U : v === null ? A.NULL : this.obj(s, v)]));
    }
    read(s, o, name) {
        return this.I.bind(this.I.getMember(s, o, name, null, {}), (s1, v) => (['ref', 'computed'].includes(v.k) ? this.I.readRef(s1, v, null) : [{ s: s1, v }]));
    }
    // plain description of an object value
    plain(s, v) {
        v = this.I.norm(s, v);
        if (v.k !== 'obj') return keyOf(v);
        const c = this.I.getCell(s, v.id);
        if (c.spreads.length || c.open) return '?' + keyOf(v);
        const out = {};
        for (const [k, x] of c.props) out[k] = this.plain(s, x);
        return out;
    }
}

const same = (a, b) => JSON.stringify(sorted(a)) === JSON.stringify(sorted(b));
const sorted = (o) => (o && typeof o === 'object' ? Object.fromEntries(Object.keys(o).sort().map((k) => [k, sorted(o[k])])) : o);

function resolution(R) {
    const X = new Resolver(R);
    const { u, I } = X;
    const fn = u.val('composables', 'useStyleSet');
    const file = fn.mod.rel;
    const bad = (key, message) => R.violation({ file, line: u.line(fn), key, message });
    // one key per kind and combination of layers that set it
    const layers = { base: {}, given: {}, props: {} };
    const want = {};
    for (let m = 1; m < 8; m++) {
        const on = LAYERS.filter((_, i) => m & (1 << i));
        const last = on[on.length - 1];
        const tag = on.map((l) => l[0]).join('');
        for (const l of on) {
            layers[l][`plain${tag}`] = Text(`${l} plain ${tag}`);
            layers[l][`$own${tag}`] = Text(`${l} own ${tag}`);
            layers[l][`$part${tag}`] = { color: Text(`${l} part ${tag}`), [`only${l}`]: Text(`${l} only ${tag}`) };
        }
        R.count('keys', 3);
        want[`plain${tag}`] = `${last} plain ${tag}`;
        want[`$own${tag}`] = `${last} own ${tag}`;
        want[`$part${tag}`] = { color: `${last} part ${tag}`, ...Object.fromEntries(on.map((l) => [`only${l}`, `${l} only ${tag}`])) };
    }
    // values that count as false are values
    for (const l of LAYERS)
        for (const v of [0, '']) {
            const k = `${l}${v === 0 ? 'Zero' : 'Empty'}`;
            layers[l][k] = layers[l][`$${k}`] = Lit(v);
            want[k] = want[`$${k}`] = keyOf(Lit(v));
            R.count('keys', 2);
        }
    // a layer that leaves a key undefined does not set it
    for (const [k, on] of [['un1', ['base']], ['un2', ['given']]]) {
        for (const l of on) layers[l][k] = Text(`${l} ${k}`);
        want[k] = `${on[on.length - 1]} ${k}`;
        layers.props[k] = undefined;
    }
    const without = (o, l) => {
        // what is left when a layer is empty
        const out = {};
        const full = layers;
        for (const k of new Set(LAYERS.filter((x) => x !== l).flatMap((x) => Object.keys(full[x]).filter((k2) => full[x][k2] !== undefined)))) {
            for (const x of LAYERS) {
                if (x === l || full[x][k] === undefined) continue;
                const v = full[x][k];
                out[k] = v.k ? keyOf(v) : { ...(out[k] || {}), ...Object.fromEntries(Object.entries(v).map(([a, b]) => [a, b.key])) };
            }
        }
        return out;
    };
    const split = (full) => {
        const v = {}, i = {};
        for (const [k, x] of Object.entries(full)) {
            if (!k.startsWith('$')) i[k] = x;
            else if (typeof x === 'string') v[VAR + k.slice(1)] = x;
        }
        return { v, i };
    };
    const GIVEN = {
        'an inline style set': { given: true, make: (s) => X.obj(s, layers.given) },
        'a named style set': { given: true, named: NAME, make: () => Lit('mine') },
        'a named style set of another component': { given: false, named: OTHER, make: () => Lit('mine') },
        'an unknown name': { given: false, named: NAME, make: () => Lit('other') },
        'no style set': { given: false, named: NAME, make: () => U },
        'an empty name': { given: false, named: NAME, make: () => Lit('') },
    };
    for (const [what, g] of Object.entries(GIVEN))
        for (const late of ['', 'given later', 'replacing another']) {
            const s0 = u.state();
            u.asBuilt(s0, X.store);
            const fill = (s) => {
                const styles = g.named ? X.obj(s, { mine: { [g.named]: layers.given } }) : X.obj(s, {});
                return u.send(s, X.store, 'setStyleSet', [styles]);
            };
            const before = late === 'replacing another' ? X.obj(s0, { mine: { [NAME]: { stale: Text('stale') } }, before: { [NAME]: { stale: Text('stale') } }, other: { [NAME]: { stale: Text('stale') } } }) : X.obj(s0, {});
            const refs = { style: X.ref(s0, late === 'replacing another' ? Lit('before') : U), base: X.ref(s0, X.obj(s0, {})), props: X.ref(s0, X.obj(s0, {})) };
            const put = (s) => {
                const set = (r, v) => s.live.set(r.id, { ...I.getCell(s, r.id), value: v });
                set(refs.style, g.make(s));
                set(refs.base, X.obj(s, layers.base));
                set(refs.props, X.obj(s, layers.props));
                return fill(s);
            };
            // settings given before, or changed after the component asked for its styles
            let outs = late ? u.send(s0, X.store, 'setStyleSet', [before]) : put(s0);
            outs = I.bind(outs, (s) => u.call(fn, [Lit(NAME), refs.style, refs.base, refs.props], s));
            if (late) outs = I.bind(outs, (s, v) => put(s).map((o) => (o.c ? o : { s: o.s, v })));
            for (const o of outs) {
                R.count('paths');
                if (o.c) {
                    bad(`throw ${what}`, `resolving ${what} throws`);
                    continue;
                }
                const full = g.given ? want : without(want, 'given');
                const { v, i } = split(full);
                const label = `${what}${late ? ` ${late}` : ''}`;
                for (const [n, expect, say] of [['componentStyleSet', full, 'the style set'], ['styleSetVariables', v, 'the CSS variables'], ['componentInlineStyle', i, 'the inline style']])
                    for (const r of X.read(o.s.clone(), o.v, n)) {
                        R.count('results');
                        const got = X.plain(r.s, r.v);
                        if (same(got, expect)) continue;
                        const k = typeof got === 'object' ? [...new Set([...Object.keys(expect), ...Object.keys(got)])].find((x) => !same(got[x], expect[x])) : '';
                        bad(`${n} ${what}`, `with ${label}, ${say} has ${k ? `${k} = ${JSON.stringify(got[k])} instead of ${JSON.stringify(expect[k])}` : JSON.stringify(got)}`);
                    }
            }
        }
    // values that are not set are not passed on
    for (const none of [undefined, null]) {
        const s = u.state();
        u.asBuilt(s, X.store);
        for (const o of u.call(fn, [Lit(NAME), X.ref(s, X.obj(s, { color: none, $size: none })), X.ref(s, X.obj(s, {})), X.ref(s, X.obj(s, {}))], s))
            for (const n of ['styleSetVariables', 'componentInlineStyle'])
                for (const r of X.read(o.s.clone(), o.v, n)) {
                    R.count('results');
                    if (!same(X.plain(r.s, r.v), {})) bad(`${n} unset`, `a key set to ${none} reaches ${n === 'styleSetVariables' ? 'the CSS variables' : 'the inline style'}`);
                }
    }
}

function schemes(R) {
    const X = new Resolver(R);
    const { u, I } = X;
    const fn = u.val('composables', 'useColorScheme');
    const bad = (key, message) => R.violation({ file: fn.mod.rel, line: u.line(fn), key, message });
    const own = Text('own scheme'), other = Text('other scheme'), def = Text('default scheme'), given = Text('given scheme');
    const STORE = { 'all set': { [NAME]: own, [OTHER]: other, default: def }, 'only the default': { [OTHER]: other, default: def }, 'only its own': { [NAME]: own, [OTHER]: other }, nothing: { [OTHER]: other } };
    const PROP = { 'a given scheme': given, 'no scheme': U, 'the scheme none': Lit('none') };
    for (const [sn, set] of Object.entries(STORE))
        for (const [pn, prop] of Object.entries(PROP))
            for (const late of ['', 'given later', 'replacing another']) {
                const s0 = u.state();
                u.asBuilt(s0, X.store);
                const stale = Text('stale scheme');
                const r = X.ref(s0, late === 'given later' ? U : late ? stale : prop);
                const put = (s) => {
                    s.live.set(r.id, { ...I.getCell(s, r.id), value: prop });
                    return u.send(s, X.store, 'setColorScheme', [X.obj(s, set)]);
                };
                let outs = late ? u.send(s0, X.store, 'setColorScheme', [X.obj(s0, late === 'given later' ? {} : { [NAME]: stale, default: stale })]) : put(s0);
                outs = I.bind(outs, (s) => u.call(fn, [Lit(NAME), r], s));
                if (late) outs = I.bind(outs, (s, v) => put(s).map((o) => (o.c ? o : { s: o.s, v })));
                const want = pn === 'the scheme none' ? U : prop !== U ? prop : set[NAME] || set.default || U;
                for (const o of outs) {
                    R.count('paths');
                    const label = `${pn}, application default ${sn}${late ? ` ${late}` : ''}`;
                    if (o.c) {
                        bad(`throw ${label}`, `resolving ${label} throws`);
                        continue;
                    }
                    for (const v of X.read(o.s.clone(), o.v, 'computedColorScheme')) {
                        R.count('results');
                        if (keyOf(I.norm(v.s, v.v)) !== keyOf(want)) bad(`scheme ${pn} ${sn}`, `${label}: the color scheme is ${keyOf(v.v)} instead of ${keyOf(want)}`);
                    }
                    const cls = want === U ? '"vs-cs-default"' : `\`vs-cs-\${${keyOf(want)}}\``;
                    for (const v of X.read(o.s.clone(), o.v, 'colorSchemeClass')) {
                        R.count('results');
                        if (keyOf(I.norm(v.s, v.v)) !== cls) bad(`class ${pn} ${sn}`, `${label}: the color scheme class is ${keyOf(v.v)} instead of ${cls}`);
                    }
                }
            }
}


// every published component looks its styles up under its own name and renders with them
function components(R) {
    const files = styledComponents().map((f) => ({ f, S: new Styled(f, { props: {} }) }));
    // parts without a name of their own (not in the list of components) receive their owner's styles
    const u = new Unit({});
    const published = u.val('declaration', 'VsComponent');
    const known = (n) => u.I.getMember(u.state(), published, n, null, {}).every((o) => !o.c && o.v.k === 'lit' && o.v.v === n);
    const names = files.map((x) => x.S.name).filter(known);
    // a style set with one marker per plain key or own part
    const setOf = (name, type) => {
        const sh = type ? shape(type) : { css: true, prims: new Map(), parts: new Map() };
        const o = {};
        if (sh.css) o.color = mark(`style ${name}`);
        for (const k of sh.prims.keys()) o[k] = mark(`style ${name}`);
        for (const k of sh.parts.keys()) o[k] = { color: mark(`style ${name}`) };
        return o;
    };
    for (const { f, S: T } of files) {
        const props = T.top.def.props;
        const n = T.name;
        if (!names.includes(n) || !(props.has('styleSet') || props.has('colorScheme'))) continue;
        const mod = L.loadModule(f);
        if (!mod.template) continue; // renders nothing of its own
        R.count('components');
        const type = declaredSet(mod);
        const own = setOf(n, type);
        const bad = (key, message) => R.violation({ file: L.rel(f), line: 1, key: `${n} ${key}`, message: `${n}: ${message}` });
        const look = (given, options) => {
            const S = new Styled(f, { calm: true, props: { ...given } });
            const seen = new Map();
            for (const x of S.reaching(S.states(options), ['style', 'class'])) seen.set(x.mark, x);
            R.count('lookups');
            return seen;
        };
        const all = (g) => Object.fromEntries([...names, 'VsOther'].map((x) => [x, g(x)]));
        if (props.has('styleSet')) {
            const seen = look({ styleSet: Lit('mine') }, { setStyleSet: { mine: all((x) => (x === n ? own : { ...setOf(x, type) })) } });
            if (!seen.has(`style ${n}`)) bad('named', 'a named style set is not applied to what it renders');
            for (const k of seen.keys()) if (k !== `style ${n}`) bad(`named ${k}`, `a named style set is looked up under ${k.slice(6)}`);
            const inline = look({ styleSet: (S, s) => S.obj(s, own) }, {});
            if (!inline.has(`style ${n}`)) bad('inline', 'an inline style set is not applied to what it renders');
        }
        if (props.has('colorScheme')) {
            const seen = look({ colorScheme: U }, { setColorScheme: all((x) => mark(`scheme ${x}`)) });
            if (!seen.has(`scheme ${n}`)) bad('scheme', 'the application\'s color scheme for it is not applied to what it renders');
            for (const k of seen.keys()) if (k !== `scheme ${n}`) bad(`scheme ${k}`, `its color scheme is looked up under ${k.slice(7)}`);
            const given = look({ colorScheme: mark('given') }, { setColorScheme: all((x) => mark(`scheme ${x}`)) });
            if (!given.has('given')) bad('given scheme', 'the given color scheme is not applied to what it renders');
        }
    }
}

exports.run = () => {
    const R = report();
    resolution(R);
    schemes(R);
    components(R);
    R.require('components', 30);
    return R.result({
        rule: 'Abstract interpretation of style resolution with one opaque text per key and layer: every key present in any subset of the base, given and prop layers must come out with the value of the strongest layer, for inline, named, foreign, unknown and missing style sets, given before or after the component asks. Then every component is read with the application\'s options holding one marked style set and color scheme per component name: only the markers of its own name may, and must, reach its rendered styles, classes and children.',
        explanation: 'Counts keys and layer combinations, resolution paths and results compared, and components with the lookups traced through their templates.',
        assumptions: ['radash assign/shake and change-case kebab naming are modelled', 'components that render nothing themselves (a modal trigger hands its style set to the modal it opens) are not followed here', 'optional props are left out while tracing a component'],
    });
};
