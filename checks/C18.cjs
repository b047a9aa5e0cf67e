'use strict';
// C18: the overlay application sees its parent's context, live, and goes away with it.
const A = require('../lib/absint.cjs');
const { U, Lit, keyOf } = A;
const { Unit, Id } = require('../lib/unit.cjs');
const { report } = require('../lib/report.cjs');
const X = require('../lib/exports.cjs');

const T = Lit(true);
const F = Lit(false);

const say = (I, s, e, v) => {
    I.event(s, e);
    return [{ s, v }];
};

class Apps {
    constructor() {
        this.host = Id('new element');
        this.key = Id('a key');
        this.n = 0;
        this.u = new Unit({
            keepEvent: (e) => e.t === 'call' && ['remove', 'removeChild', 'replaceChildren', 'unmount', 'mount', 'createApp', 'report'].includes(e.name),
            onOpaque: (c, st, I) => this.opaque(c, st, I),
        });
        this.I = this.u.I;
        this.protos = new Map(); // object id -> prototype value
        this.proxies = new Map(); // symbol key -> {target, handler}
        this.descs = []; // {obj, name, desc}
        this.mounts = [];
        this.hooks = [];
        this.world = null;
    }
    // an application: its own context whose tables are separate objects
    app(st, name) {
        const u = this.u;
        const config = u.obj(st, { globalProperties: u.obj(st, {}), errorHandler: Id(`${name} errorHandler`), warnHandler: Id(`${name} warnHandler`) });
        const context = u.obj(st, { config, components: u.obj(st, {}), directives: u.obj(st, {}), provides: u.obj(st, {}) });
        const self = u.obj(st, { config, _context: context });
        context.of = self;
        const set = (n, v) => this.u.put(st, self, n, v);
        const native = (n, impl) => ({ k: 'native', name: `${name}.${n}`, key: `native:${name}.${n}`, impl });
        const A_ = this;
        const made = { name, self, config, context };
        set('mount', native('mount', (I, s, args) => {
            A_.mounts.push({ app: made, s: s.clone(), el: args[0] });
            return say(I, s, { t: 'call', name: 'mount', key: `${name}.mount`, args }, U);
        }));
        set('unmount', native('unmount', (I, s, args) => say(I, s, { t: 'call', name: 'unmount', key: `${name}.unmount`, args }, U)));
        set('onUnmount', native('onUnmount', (I, s, args) => {
            A_.hooks.push({ app: name, f: args[0] });
            return [{ s, v: U }];
        }));
        for (const n of ['component', 'use', 'provide', 'directive', 'mixin']) set(n, native(n, (I, s, args) => say(I, s, { t: 'call', name: n, key: `${name}.${n}`, args }, self)));
        return made;
    }
    opaque({ fk, name, args }, st, I) {
        if (/^import:vue#createApp$/.test(fk)) {
            const made = this.app(st, `overlay${++this.n}`);
            this.overlays = [...(this.overlays || []), made];
            I.event(st, { t: 'call', name: 'createApp', key: 'createApp', args });
            return [{ s: st, v: made.self }];
        }
        if (/document\.createElement$/.test(fk)) return [{ s: st, v: this.host }];
        if (name === 'getItem') return [{ s: st, v: A.NULL }];
        if (name === 'matchMedia') return [{ s: st, v: I.mkObj(st, [['matches', F]]) }];
        if (/Object\.create$/.test(fk)) {
            const o = I.mkObj(st, []);
            this.protos.set(o.id, args[0]);
            return [{ s: st, v: o }];
        }
        if (/setPrototypeOf$/.test(fk)) {
            if (args[0].id !== undefined) this.protos.set(args[0].id, args[1]);
            return [{ s: st, v: args[0] }];
        }
        if (/(Object|Reflect)\.defineProperty$/.test(fk)) {
            this.descs.push({ obj: args[0], name: args[1], desc: args[2] });
            return [{ s: st, v: args[0] }];
        }
        if (this.world) {
            const of = this.world(args[0]);
            if (of === 'parent' || of === 'own') {
                const has = of === 'parent';
                if (/^(has|hasOwn|hasOwnProperty)$/.test(name)) return [{ s: st, v: has ? T : F }];
                if (name === 'get') return [{ s: st, v: has ? this.found : U }];
                if (name === 'getOwnPropertyDescriptor') return [{ s: st, v: has ? this.found : U }];
            }
        }
        return null;
    }
}

const same = (a, b) => a && b && (a.id !== undefined ? a.id === b.id && a.k === b.k : keyOf(a) === keyOf(b));

function judgeContext(R, P, at, label, s, overlay, parent) {
    const { u, I } = P;
    const { file, line } = at;
    const bad = (key, message) => R.violation({ file, line, key, message: `${message} (${file})` });
    const read = (st, o, n) => {
        const r = I.getMember(st, o, n, null, {});
        return r.length === 1 ? r[0].v : U;
    };
    // does a table answer with what the parent's table has at that moment?
    const trap = (proxy, name, wanted, own) => {
        const h = read(s.clone(), proxy.handler, name);
        if (h.k !== 'fn' && h.k !== 'native') return same(proxy.target, wanted) || (!own && follows(proxy.target, wanted, own));
        P.found = Id('what the parent has');
        P.world = (v) => (same(v, wanted) ? 'parent' : same(v, proxy.target) ? 'own' : null);
        const st = s.clone();
        u.put(st, wanted, 'someKey', P.found);
        const outs = u.call(h, [proxy.target, Lit('someKey'), U], st);
        P.world = null;
        R.count('traps');
        return outs.every((o) => o.c !== 'throw' && (name === 'has' ? o.v && o.v.k === 'lit' && o.v.v === true : o.v && (o.v.ident === P.found.ident || (name !== 'get' && o.v.k !== 'lit'))));
    };
    const follows = (v, wanted, own, d = 3) => {
        if (!v || d < 0) return false;
        if (same(v, wanted)) return true;
        const px = P.proxies.get(keyOf(v));
        if (px) return trap(px, 'get', wanted, own) && trap(px, 'has', wanted, own) && (!own || trap(px, 'getOwnPropertyDescriptor', wanted, own));
        if (own) return false;
        if (v.id !== undefined && P.protos.has(v.id)) return follows(P.protos.get(v.id), wanted, own, d - 1);
        return false;
    };
    for (const n of ['components', 'directives', 'provides']) {
        R.count('tables');
        const v = read(s.clone(), overlay.context, n);
        if (!follows(v, read(s.clone(), parent.context, n), false)) bad(`${label}|${n}`, `${label}: the overlay's ${n} do not follow what the application has registered when they are looked up`);
    }
    R.count('tables');
    const octx = read(s.clone(), overlay.context, 'config');
    const gp = read(s.clone(), octx, 'globalProperties');
    if (!follows(gp, read(s.clone(), parent.config, 'globalProperties'), true)) bad(`${label}|globalProperties`, `${label}: a global property of the application is not an own property of the overlay's globals when a template looks it up`);
    for (const n of ['errorHandler', 'warnHandler']) {
        R.count('handlers');
        const later = Id(`later ${n}`);
        const st = s.clone();
        u.put(st, parent.config, n, later);
        let v = null;
        const d = P.descs.filter((x) => same(x.obj, octx) && x.name.k === 'lit' && x.name.v === n).pop();
        let outs = null;
        if (d) {
            const g = read(st, d.desc, 'get');
            if (g.k === 'fn') outs = u.call(g, [], st);
            else v = read(st, d.desc, 'value');
        } else v = read(st, octx, n);
        if (same(octx, parent.config)) continue;
        const hands = (o) => {
            if (!o.v) return false;
            if (o.v.ident === later.ident) return true;
            if (o.v.k !== 'fn') return false;
            let calls = true;
            for (const p of P.u.call(o.v, [Id('error'), Id('instance'), Id('info')], o.s.clone())) calls = calls && P.seen.has(later.ident);
            return calls;
        };
        P.seen = new Set();
        const prev = u.sink;
        u.sink = (e) => e.f && e.f.ident && P.seen.add(e.f.ident);
        const ok = (outs || [{ s: st, v }]).every(hands);
        u.sink = prev;
        if (!ok) bad(`${label}|${n}`, `${label}: an ${n} the application sets later is not the one the overlay uses`);
    }
}

function host(R) {
    const P = new Apps();
    const { u, I } = P;
    const create = u.val('framework', 'createVlossom');
    const file = create.mod.rel;
    const line = u.line(create);
    const mount = { k: 'native', name: 'install', key: 'native:install', impl: (_, s, [app]) => I.bind(u.call(create, [u.obj(s, { components: u.obj(s, {}) })], s), (s2, plugin) => u.send(s2, plugin, 'install', [app])) };
    const bad = (key, message) => R.violation({ file, line, key, message: `${message} (${file})` });
    u.sink = (e) => {
        if (e.t === 'new' && /Proxy$/.test(e.key || '')) P.proxies.set(keyOf(e.v), { target: e.args[0], handler: e.args[1] });
    };
    const s0 = u.state();
    u.asLoaded(s0);
    const open = (s, label, parent) => {
        P.mounts = [];
        P.hooks = [];
        const from = s.events().length;
        const outs = u.call(mount, [parent.self], s);
        const done = [];
        for (const o of outs) {
            R.count('paths');
            if (o.c === 'throw') bad(`${label}|throw`, `${label} throws`);
            else if (!o.s.events().slice(from).some((e) => e.name === 'mount')) bad(`${label}|host`, `${label}: no overlay host is mounted for the application`);
            else done.push(o);
        }
        const mounts = P.mounts;
        P.mounts = [];
        for (const m of mounts) {
            if (!same(m.el, P.host)) bad(`${label}|element`, `${label}: the overlay is mounted into ${keyOf(m.el)}`);
            judgeContext(R, P, { file, line }, label, m.s, m.app, parent);
        }
        return { outs: done, overlay: mounts.length && mounts[0].app, hooks: P.hooks.slice() };
    };
    const p1 = P.app(s0, 'application');
    const a = open(s0, 'first application', p1);
    for (const o of a.outs) {
        // a second installation while the first is alive keeps the one host
        const p2 = P.app(o.s, 'other application');
        const at = o.s.events().length;
        for (const o2 of u.call(mount, [p1.self], o.s.clone())) if (o2.s.events().slice(at).some((e) => e.name === 'mount')) bad('twice', 'installing twice in one application mounts a second overlay host');
        // tear the application down
        let outs = [{ s: o.s, v: U }];
        for (const h of a.hooks.filter((x) => x.app === 'application')) outs = I.bind(outs, (s) => u.call(h.f, [], s));
        outs = I.bind(outs, (s) => u.call(u.method(s, p1.self, 'unmount'), [], s, p1.self));
        for (const t of outs) {
            R.count('teardowns');
            const ev = t.s.events().slice(at);
            const calls = ev.filter((e) => e.t === 'call');
            if (!calls.some((e) => e.name === 'unmount' && e.key === `${a.overlay.name}.unmount`)) bad('teardown|app', 'unmounting the application leaves the overlay application mounted');
            const gone = calls.some((e) => (e.name === 'remove' && (e.recv ? same(e.recv, P.host) : e.key.startsWith(keyOf(P.host)))) || (e.name === 'removeChild' && same(e.args[0], P.host)));
            if (!gone) bad('teardown|element', "unmounting the application leaves the overlay host's element in the page");
            if (!calls.some((e) => e.key === 'application.unmount')) bad('teardown|self', 'unmounting the application no longer unmounts it');
            open(t.s, 'application after an earlier one was unmounted', p2);
        }
    }
}

// installing the library: the service is reachable and every given component is registered
function install(R) {
    const P = new Apps();
    const { u, I } = P;
    const create = u.val('framework', 'createVlossom');
    const file = create.mod.rel;
    const line = u.line(create);
    const bad = (key, message) => R.violation({ file, line, key, message: `${message} (${file})` });
    P.I.cfg.keepEvent = (e) => e.t === 'call' && ['component', 'mount'].includes(e.name);
    const s = u.state();
    u.asLoaded(s);
    const one = u.obj(s, { name: Lit('OneComp') });
    const two = u.obj(s, { name: Lit('TwoComp') });
    const comps = u.obj(s, { OneName: one, TwoName: two });
    const options = u.obj(s, { components: comps });
    const app = P.app(s, 'application');
    for (const o of I.bind(u.call(create, [options], s), (s2, plugin) => I.bind(u.send(s2, plugin, 'install', [app.self]), (s3, v) => [{ s: s3, v }]))) {
        R.count('installs');
        if (o.c === 'throw') {
            bad('install|throw', 'installing the library throws');
            continue;
        }
        const reg = o.s.events().filter((e) => e.name === 'component' && e.key === 'application.component');
        for (const [n, c] of [['OneName', one], ['TwoName', two]]) if (!reg.some((e) => e.args[0].k === 'lit' && e.args[0].v === n && same(e.args[1], c))) bad(`install|${n}`, `installing the library does not register a component the application passed under its name`);
        if (!o.s.events().some((e) => e.name === 'mount')) bad('install|host', 'installing the library mounts no overlay host');
        const gp = I.getMember(o.s, app.config, 'globalProperties', null, {})[0].v;
        const vs = I.getMember(o.s, gp, '$vs', null, {})[0].v;
        if (!vs || vs.k !== 'obj') bad('install|$vs', 'installing the library does not make its service a global property of the application');
        const use = u.call(u.val('framework', 'useVlossom'), [], o.s.clone());
        for (const x of use) if (x.c === 'throw' || !same(x.v, vs)) bad('install|use', 'the service handed out afterwards is not the installed one');
    }
}

function run() {
    const R = report('C18');
    host(R);
    install(R);
    return R.result({
        rule: 'On every path of installing the library, at the moment the overlay application is mounted, each lookup table of its context must be the parent\'s own table, have it as prototype, or be a proxy whose traps return the parent\'s current entry; its handlers must be read from the parent when used; running what the application registered for its own unmount must unmount the overlay application, remove its element and allow a later application to get its own host.',
        explanation: 'Abstract interpretation of the overlay host functions with two applications as opaque objects; the tables, handlers, proxy traps and teardown callbacks created on each path are interpreted in turn.',
        assumptions: ['Vue looks components, directives and provided values up by key and global properties as own properties', 'application unmount runs the callbacks registered for it'],
    });
}
module.exports = { run };
