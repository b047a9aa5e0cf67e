'use strict';
// C19: toasts and modals: listed in the container they were sent to, as given, and leaving alone.
const A = require('../lib/absint.cjs');
const { U, Lit, keyOf } = A;
const { Id, random, Unit } = require('../lib/unit.cjs');
const { Sim } = require('../lib/effects.cjs');
const { Dialogs } = require('../lib/dialogs.cjs');
const { report } = require('../lib/report.cjs');

const OPTIONS = {
    toast: ['colorScheme', 'styleSet', 'align', 'autoClose', 'placement', 'primary', 'timeout'],
    modal: ['beforeClose', 'colorScheme', 'styleSet', 'callbacks', 'dimClose', 'dimmed', 'escClose', 'focusLock', 'hideScroll', 'componentProps', 'size'],
};
const PLACES = [['the default container', undefined, 'body'], ['a given container', '#side', '#side'], ['an empty container name', '', 'body']];

const ALIKE = ['#side', '#side-2', '#side2', '#Side', 'side', '.side', '#side .side'];

class Shows {
    constructor(R) {
        this.R = R;
        this.D = new Dialogs({
            keepEvent: () => false,
            awaitThrows: () => false,
            duringAwait: (st) => {
                const f = this.meanwhile;
                if (!f) return null;
                this.meanwhile = null;
                const outs = f(st);
                this.meanwhile = f;
                return outs;
            },
            onOpaque: (c, st) => {
                const v = random(c);
                return v ? [{ s: st, v }] : null;
            },
        });
        this.u = this.D.u;
        this.I = this.D.I;
        const st = this.u.state();
        this.stores = {
            toast: this.D.one(this.u.call(this.u.val('stores', 'useToastContainerStore'), [], st)),
            modal: this.D.modals,
        };
        this.views = this.D.one(this.u.call(this.u.val('stores', 'useOverlayContainerStore'), [], st));
        this.makers = { toast: this.u.val('plugins', 'createToastPlugin'), modal: this.u.val('plugins', 'createModalPlugin') };
    }
    fresh() {
        const s = this.D.fresh();
        for (const o of [this.stores.toast, this.views]) this.u.asBuilt(s, o);
        return s;
    }
    plugin(s, kind) {
        return this.D.one(this.u.call(this.makers[kind], [], s));
    }
    get(s, o, n) {
        const r = this.I.getMember(s.clone(), o, n, null, {});
        return r.length === 1 ? r[0].v : U;
    }
    // what a container holds, in order: [{id, content}]
    held(s, kind, place) {
        const o = this.u.send(s.clone(), this.stores[kind], 'get', [Lit(place)]).filter((x) => !x.c)[0];
        return o ? this.I.elements(o.s, o.v) : null;
    }
    names(s, kind, place) {
        const l = this.held(s, kind, place);
        return l ? l.map((e) => this.contentName(s, e)).join(', ') : 'unknown';
    }
    contentName(s, e) {
        const v = this.get(s, e, 'content');
        return v.ident || (v.wraps && v.wraps.ident) || keyOf(v);
    }
    // views: [{container, component}]
    shown(s) {
        const r = this.I.getMember(s.clone(), this.views, 'overlayViewMap', null, {})[0];
        const m = this.I.readRef(r.s, r.v, null)[0];
        const c = this.I.getCell(m.s, m.v.id);
        if (!c || !c.entries) return null;
        return [...c.entries.values()].map((v) => ({ container: keyOf(this.get(m.s, v, 'container')), component: this.get(m.s, v, 'component') }));
    }
    // whether a registered component shows the entries of a kind: it reads their lists
    reads(name, kind) {
        const k = name + '|' + kind;
        if (!this.known) this.known = new Map();
        if (!this.known.has(k)) {
            const comp = this.registered.get(name);
            let hit = false;
            if (comp && comp.mod) {
                const sim = new Sim();
                const u2 = new Unit({}, sim.I);
                const store = u2.call(u2.val('stores', kind === 'toast' ? 'useToastContainerStore' : 'useModalContainerStore'), [], u2.state())[0].v;
                const ids = new Set([...sim.I.root.get(store.id).props.values()].filter((v) => v.k === 'ref').map((v) => v.id));
                sim.I.cfg.onRead = (o) => {
                    if (o.k === 'ref' && ids.has(o.id)) hit = true;
                };
                sim.load(comp.mod.path);
                for (const v of sim.top.ret && sim.top.ret.k === 'obj' ? sim.I.getCell(sim.state(), sim.top.ret.id).props.values() : []) if (v.k === 'computed') sim.I.readRef(sim.state(), v, null);
            }
            this.known.set(k, hit);
        }
        return this.known.get(k);
    }
    send(s, kind, how, name, place, extra = []) {
        const opts = [...extra];
        if (place !== undefined) opts.push(['container', Lit(place)]);
        const p = this.plugin(s, kind);
        return this.u.send(s, p, how, [Id(name), this.I.mkObj(s, opts)]);
    }
    // a modal on screen is on the overlay stack
    open(s, name, place, extra) {
        const enter = (s1) => {
            const info = (this.held(s1, 'modal', place) || []).slice(-1)[0];
            return info ? this.D.enter(s1, this.get(s1, info, 'id'), this.D.cbs(s1, name, [this.D.CLOSE])) : [{ s: s1, v: U }];
        };
        return this.I.bind(this.send(s, 'modal', 'open', name, place, extra), enter);
    }
    // states with a few things already shown, between two other overlays
    busy(extra = []) {
        let outs = this.D.enter(this.fresh(), Id('an overlay below'), this.I.mkObj(this.u.state(), []));
        for (const [kind, how, n, place] of [['toast', 'show', 'toast 1', 'body'], ['modal', 'open', 'modal 1', '#side'], ['toast', 'show', 'toast 2', '#side'], ['modal', 'open', 'modal 2', 'body'], ['toast', 'show', 'toast 3', 'body'], ['modal', 'open', 'modal 3', 'body']])
            outs = this.I.bind(outs, (s) => (kind === 'modal' ? this.open(s, n, place, extra) : this.send(s, kind, how, n, place)));
        outs = this.I.bind(outs, (s) => this.D.enter(s, Id('an overlay above'), this.I.mkObj(s, [])));
        return outs.filter((o) => !o.c);
    }
}

function sending(R, W, kind, how) {
    const { I, u } = W;
    const file = W.makers[kind].mod.rel;
    const line = u.line(W.makers[kind]);
    const bad = (key, message) => R.violation({ file, line, key, message: `${message} (${file})` });
    const other = kind === 'toast' ? 'modal' : 'toast';
    for (const [label, place, lands] of PLACES)
        for (const full of [false, true]) {
            const starts = full ? W.busy() : [{ s: W.fresh(), v: U }];
            for (const st of starts) {
                const what = `${kind} ${how} into ${label}${full ? ' while others are shown' : ''}`;
                const key = (k) => `${kind}.${how}|${label}|${full}|${k}`;
                const before = {};
                for (const k of ['toast', 'modal']) for (const p of ['body', '#side']) before[k + p] = W.names(st.s, k, p);
                const given = OPTIONS[kind].map((n) => [n, Id(`given ${n}`)]);
                for (const o of W.send(st.s, kind, how, 'the new one', place, given)) {
                    R.count('paths');
                    if (o.c === 'throw') {
                        bad(key('throw'), `${what} throws`);
                        continue;
                    }
                    for (const k of ['toast', 'modal'])
                        for (const p of ['body', '#side']) {
                            R.count('lists');
                            const was = before[k + p];
                            const want = k === kind && p === lands ? [was, 'the new one'].filter(Boolean).join(', ') : was;
                            if (W.names(o.s, k, p) !== want) bad(key(`${k}${p}`), `${what}: the ${k}s of ${p} are [${W.names(o.s, k, p)}] instead of [${want}]`);
                        }
                    const info = (W.held(o.s, kind, lands) || []).slice(-1)[0];
                    if (info) {
                        for (const [n, v] of given) {
                            R.count('options');
                            const got = W.get(o.s, info, n);
                            if (keyOf(got) !== keyOf(v)) bad(key(n), `${what}: the option ${n} arrives as ${keyOf(got)}`);
                        }
                        const ids = (W.held(o.s, kind, lands) || []).map((e) => keyOf(I.norm(o.s, W.get(o.s, e, 'id'))));
                        if (new Set(ids).size !== ids.length) bad(key('id'), `${what}: it shares its id with another ${kind}`);
                    }
                    const views = W.shown(o.s);
                    R.count('views');
                    const mine = views && views.filter((v) => v.container === keyOf(Lit(lands)));
                    const need = full ? 2 : 1;
                    if (!mine || mine.length < need) bad(key('view'), `${what}: nothing renders the ${kind}s of that container${full ? ` beside its ${other}s` : ''}`);
                    if (views && new Set(views.map((v) => `${v.container}|${keyOf(v.component)}`)).size !== views.length) bad(key('views'), `${what}: a container is rendered twice`);
                    const renders = (v) => !!v && v.component.k === 'lit' && W.reads(v.component.v, kind);
                    if (mine && mine.length && !mine.some(renders)) bad(key('renderer'), `${what}: no view of that container renders ${kind}s`);
                    for (const v of views || []) if (v.component.k === 'lit' && !W.registered.has(v.component.v)) bad(key(`component ${v.component.v}`), `${what}: rendered by ${v.component.v}, which the library does not register`);
                }
            }
        }
    // different containers, however alike their names
    for (const a of ALIKE)
        for (const b of ALIKE) {
            if (a === b) continue;
            for (const o of I.bind(W.send(W.fresh(), kind, how, 'the first one', a), (s) => W.send(s, kind, how, 'the new one', b))) {
                R.count('pairs');
                const views = W.shown(o.s) || [];
                if (!views.some((v) => v.container === keyOf(Lit(b)))) bad(`${kind}.${how}|alike`, `${kind} ${how} into ${b} after ${a}: nothing renders the ${kind}s of ${b}`);
            }
        }
    // a container that does not exist
    W.D.missing = true;
    for (const o of W.send(W.fresh(), kind, how, 'the new one', '#absent')) {
        R.count('paths');
        if (o.c === 'throw') bad(`${kind}.${how}|missing|throw`, `${kind} ${how} into a container that does not exist throws`);
        else {
            if ((W.shown(o.s) || []).length) bad(`${kind}.${how}|missing|view`, `${kind} ${how} into a container that does not exist still fixes its place, so later ${kind}s of that container are never shown`);
            if (W.names(o.s, kind, '#absent') !== '') bad(`${kind}.${how}|missing|list`, `${kind} ${how} into a container that does not exist still lists it`);
        }
    }
    W.D.missing = undefined;
}

function leaving(R, W) {
    const { I, u } = W;
    const T = (k) => ({ file: W.makers[k].mod.rel, line: u.line(W.makers[k]) });
    const judge = (label, kind, outs, place, want) => {
        const stays = (s, p) => (W.held(s, 'modal', p) || []).map((e) => keyOf(I.norm(s, W.get(s, e, 'id'))));
        for (const o of outs) {
            R.count('removals');
            const at = T(kind);
            const bad = (key, message) => R.violation({ ...at, key, message: `${message} (${at.file})` });
            if (o.c === 'throw') {
                bad(`${label}|throw`, `${label} throws`);
                continue;
            }
            for (const k of ['toast', 'modal'])
                for (const p of ['body', '#side']) {
                    const w = k === kind && p === place ? want : { 'toastbody': 'toast 1, toast 3', 'toast#side': 'toast 2', 'modalbody': 'modal 2, modal 3', 'modal#side': 'modal 1' }[k + p];
                    if (W.names(o.s, k, p) !== w) bad(`${label}|${k}${p}`, `${label}: the ${k}s of ${p} are [${W.names(o.s, k, p)}] instead of [${w}]`);
                }
            // whatever is still open is still on the overlay stack
            const stack = W.D.stack(o.s) || [];
            R.count('stacks');
            for (const id of [keyOf(Id('an overlay below')), keyOf(Id('an overlay above')), ...stays(o.s, 'body'), ...stays(o.s, '#side')])
                if (!stack.includes(id)) bad(`${label}|stack`, `${label}: an overlay that stays open is no longer on the overlay stack`);
        }
    };
    for (const st of W.busy()) {
        const s0 = st.s;
        const idAt = (kind, place, i) => {
            const l = W.held(s0, kind, place);
            return l && l[i] ? W.get(s0, l[i], 'id') : Id('unknown id');
        };
        const go = (kind, name, args) => {
            const s = s0.clone();
            return u.send(s, W.plugin(s, kind), name, args);
        };
        judge('toast.remove of the first', 'toast', go('toast', 'remove', [Lit('body'), idAt('toast', 'body', 0)]), 'body', 'toast 3');
        judge('toast.remove of the last', 'toast', go('toast', 'remove', [Lit('body'), idAt('toast', 'body', 1)]), 'body', 'toast 1');
        judge('toast.remove of the only one', 'toast', go('toast', 'remove', [Lit('#side'), idAt('toast', '#side', 0)]), '#side', '');
        judge('toast.remove of one shown elsewhere', 'toast', go('toast', 'remove', [Lit('#side'), idAt('toast', 'body', 0)]), '#side', 'toast 2');
        judge('toast.clear', 'toast', go('toast', 'clear', []), 'body', '');
        judge('toast.clear of a container', 'toast', go('toast', 'clear', [Lit('#side')]), '#side', '');
        judge('modal.clear', 'modal', go('modal', 'clear', []), 'body', '');
        judge('modal.clear of a container', 'modal', go('modal', 'clear', [Lit('#side')]), '#side', '');
        judge('modal.close', 'modal', go('modal', 'close', []), 'body', 'modal 2');
        judge('modal.close in a container', 'modal', go('modal', 'close', [Lit('#side')]), '#side', '');
        judge('modal.closeWithId of a covered one', 'modal', go('modal', 'closeWithId', [Lit('body'), idAt('modal', 'body', 0)]), 'body', 'modal 3');
        judge('modal.closeWithId of the last', 'modal', go('modal', 'closeWithId', [Lit('body'), idAt('modal', 'body', 1)]), 'body', 'modal 2');
        judge('modal.closeWithId in another container', 'modal', go('modal', 'closeWithId', [Lit('#side'), idAt('modal', 'body', 0)]), '#side', 'modal 1');
    }
    // while a modal is asked whether it may close, another one opens
    const ask = { k: 'native', name: 'beforeClose', key: 'beforeClose', impl: (I2, st) => [{ s: st, v: { k: 'promise', v: Lit(true) } }] };
    for (const st of W.busy([['beforeClose', ask]])) {
        const l = W.held(st.s, 'modal', 'body') || [];
        const go = (name, args) => {
            const s = st.s.clone();
            const p = W.plugin(s, 'modal');
            W.meanwhile = (s1) => W.names(s1, 'modal', 'body').includes('modal 4') ? [{ s: s1, v: U }] : W.open(s1, 'modal 4', 'body', []);
            const outs = u.send(s, p, name, args);
            W.meanwhile = null;
            return outs;
        };
        judge('modal.close while another opens', 'modal', go('close', []), 'body', 'modal 2, modal 4');
        if (l.length === 2) {
            judge('modal.closeWithId of a covered one while another opens', 'modal', go('closeWithId', [Lit('body'), W.get(st.s, l[0], 'id')]), 'body', 'modal 3, modal 4');
            judge('modal.closeWithId of the last while another opens', 'modal', go('closeWithId', [Lit('body'), W.get(st.s, l[1], 'id')]), 'body', 'modal 2, modal 4');
        }
    }
}

function run() {
    const R = report('C19');
    const W = new Shows(R);
    const comps = W.u.val('main', 'VlossomComponents');
    const c = comps && comps.k === 'obj' ? W.I.getCell(W.u.state(), comps.id) : null;
    if (!c) throw new Error('the list of components is not an object');
    W.registered = c.props;
    for (const how of ['show', 'info', 'success', 'warning', 'error']) sending(R, W, 'toast', how);
    sending(R, W, 'modal', 'open');
    leaving(R, W);
    R.stats(W.I.stats);
    return R.result({
        rule: 'On every path of showing a toast or opening a modal, the list of the container it was sent to is the previous list followed by it, every other list is unchanged, each option given is the option listed, its id differs from the others of its container, and that container has a view of a registered component for it; on every path of removing, closing or clearing, exactly the addressed entries leave.',
        explanation: 'Abstract interpretation of the toast and modal services and the stores behind them with opaque contents, ids and options, from an empty page and from one where both kinds are shown in two containers.',
        assumptions: ['random ids do not collide', 'asynchronous close hooks that accept are run to completion'],
    });
}
module.exports = { run };
