'use strict';
// The dialog plugins over opaque dialogs: stores as constructed, dialogs entered on the overlay stack with their own callbacks.
const A = require('./absint.cjs');
const { Sym, U, Lit, keyOf } = A;
const { Unit, Id } = require('./unit.cjs');

class Dialogs {
    constructor(cfg = {}) {
        this.u = new Unit({
            ...cfg,
            decide: (v, st) => {
                // the container exists unless a scenario says otherwise
                if (this.missing === undefined && /querySelector\(/.test(v.key || '') && !v.eq) return true;
                if (this.missing && /querySelector\(/.test(v.key || '')) return false;
                return cfg.decide ? cfg.decide(v, st) : undefined;
            },
        });
        this.I = this.u.I;
        const st = this.u.state();
        this.overlays = this.one(this.u.call(this.u.val('stores', 'useOverlayCallbackStore'), [], st));
        this.modals = this.one(this.u.call(this.u.val('stores', 'useModalContainerStore'), [], st));
        this.CLOSE = this.u.val('declaration', 'OVERLAY_CLOSE').v;
    }
    one(outs) {
        const ok = outs.filter((o) => !o.c);
        if (ok.length !== 1) throw new Error('expected one outcome');
        return ok[0].v;
    }
    fresh() {
        const s = this.u.state();
        this.u.asBuilt(s, this.overlays);
        this.u.asBuilt(s, this.modals);
        return s;
    }
    plugin(st, name, ...args) {
        return this.one(this.u.call(this.u.val('plugins', name), args, st));
    }
    // ids of the dialogs of a container, in order
    dialogs(s, container) {
        const outs = this.u.send(s.clone(), this.modals, 'get', [Lit(container)]);
        return outs.filter((o) => !o.c).map((o) => {
            const els = this.I.elements(o.s, o.v);
            return els ? els.map((e) => this.idOf(o.s, e)) : null;
        })[0];
    }
    idOf(s, e) {
        const r = this.I.getMember(s, e, 'id', null, {});
        return r.length === 1 ? keyOf(this.I.norm(s, r[0].v)) : null;
    }
    infos(s, container) {
        const o = this.u.send(s.clone(), this.modals, 'get', [Lit(container)]).filter((x) => !x.c)[0];
        return o ? this.I.elements(o.s, o.v) || [] : [];
    }
    // ids on the overlay stack, bottom first
    stack(s) {
        const l = this.u.lists(s, this.overlays).filter((x) => x.elems)[0];
        if (!l) return null;
        return l.elems.map((e) => {
            const c = this.I.getCell(s, e.id);
            const first = c && c.elems ? c.elems[0] : c && c.props ? c.props.get('id') : null;
            return first ? keyOf(first) : '?';
        });
    }
    // the rendered dialog enters the stack with the callbacks it was opened with
    enter(s, id, callbacks) {
        return this.u.send(s, this.overlays, 'push', [id, { k: 'ref', id: this.I.alloc(s, { t: 'ref', value: callbacks }) }]);
    }
    cbs(s, owner, names) {
        return this.I.mkObj(s, names.map((n) => [n, Sym(`cb:${owner}:${n}`, { nonnull: true, cb: { owner, name: n } })]));
    }
}
module.exports = { Dialogs, Id };
