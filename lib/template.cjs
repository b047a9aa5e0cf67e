'use strict';
// Template walking helpers: elements with scopes, free identifiers of expressions.
const L = require('./load.cjs');
const { ts } = L;

const HTML = new Set(
    'html,body,base,head,link,meta,style,title,address,article,aside,footer,header,hgroup,h1,h2,h3,h4,h5,h6,nav,section,div,dd,dl,dt,figcaption,figure,picture,hr,img,li,main,ol,p,pre,ul,a,b,abbr,bdi,bdo,br,cite,code,data,dfn,em,i,kbd,mark,q,rp,rt,ruby,s,samp,small,span,strong,sub,sup,time,u,var,wbr,area,audio,map,track,video,embed,object,param,source,canvas,script,noscript,del,ins,caption,col,colgroup,table,thead,tbody,td,th,tr,button,datalist,fieldset,form,input,label,legend,meter,optgroup,option,output,progress,select,textarea,details,dialog,menu,summary,template,blockquote,iframe,tfoot,search,slot'.split(','),
);
const SVG = new Set(
    'svg,animate,animateMotion,animateTransform,circle,clipPath,defs,desc,ellipse,feBlend,feColorMatrix,feComponentTransfer,feComposite,feConvolveMatrix,feDiffuseLighting,feDisplacementMap,feDropShadow,feFlood,feFuncA,feFuncB,feFuncG,feFuncR,feGaussianBlur,feImage,feMerge,feMergeNode,feMorphology,feOffset,fePointLight,feSpecularLighting,feSpotLight,feTile,feTurbulence,filter,foreignObject,g,image,line,linearGradient,marker,mask,metadata,mpath,path,pattern,polygon,polyline,radialGradient,rect,set,stop,switch,symbol,text,textPath,title,tspan,use,view'.split(','),
);
const BUILTIN = new Set(['component', 'slot', 'template', 'transition', 'transitiongroup', 'keepalive', 'teleport', 'suspense']);
const isBuiltin = (t) => BUILTIN.has(t.replace(/-/g, '').toLowerCase());
const BUILTIN_DIRS = new Set(['if', 'else', 'else-if', 'for', 'show', 'model', 'on', 'bind', 'slot', 'html', 'text', 'cloak', 'once', 'pre', 'memo', 'is']);
const JS_GLOBALS = new Set(
    'Infinity,undefined,NaN,isFinite,isNaN,parseFloat,parseInt,decodeURI,decodeURIComponent,encodeURI,encodeURIComponent,Math,Number,Date,Array,Object,Boolean,String,RegExp,Map,Set,JSON,Intl,BigInt,console,Error,Symbol,require'.split(','),
);
const INSTANCE = new Set('$,$el,$data,$props,$attrs,$slots,$refs,$parent,$root,$host,$emit,$options,$forceUpdate,$nextTick,$watch,$event'.split(','));

function patternNames(code) {
    const sf = ts.createSourceFile('p.ts', `(${code}) => 0`, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
    const names = [];
    const visit = (b) => {
        if (ts.isIdentifier(b)) names.push(b.text);
        else for (const e of b.elements || []) if (e.name) visit(e.name);
    };
    for (const p of sf.statements[0].expression.parameters) visit(p.name);
    return names;
}
function freeIds(root) {
    const out = [];
    const visit = (n, bound) => {
        if (ts.isTypeNode(n)) return;
        if (ts.isIdentifier(n)) {
            const p = n.parent;
            if (p && ts.isPropertyAccessExpression(p) && p.name === n) return;
            if (p && ts.isPropertyAssignment(p) && p.name === n) return;
            if (p && ts.isMethodDeclaration(p) && p.name === n) return;
            if (p && ts.isBindingElement(p) && p.propertyName === n) return;
            if (n.text && !bound.has(n.text)) out.push(n);
            return;
        }
        let b = bound;
        if (ts.isFunctionLike(n)) {
            b = new Set(bound);
            for (const q of n.parameters) for (const nm of namesOf(q.name)) b.add(nm);
        }
        if (ts.isBlock(n) || ts.isSourceFile(n)) {
            b = new Set(b);
            for (const s of n.statements) if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) for (const nm of namesOf(d.name)) b.add(nm);
        }
        ts.forEachChild(n, (c) => visit(c, b));
    };
    const namesOf = (p) => (ts.isIdentifier(p) ? [p.text] : (p.elements || []).flatMap((e) => (e.name ? namesOf(e.name) : [])));
    visit(root, new Set());
    return out;
}
// calls f(el, locals:Set, ancestors) for each element of a template
function walkTemplate(tpl, f) {
    const go = (n, locals, anc) => {
        if (n.type !== 1) {
            if (n.type === 5) f(null, locals, anc, n);
            return;
        }
        let mine = locals;
        const vfor = n.props.find((p) => p.type === 7 && p.name === 'for');
        if (vfor && vfor.forParseResult) {
            mine = new Set(mine);
            for (const k of ['value', 'key', 'index']) if (vfor.forParseResult[k]) for (const nm of patternNames(vfor.forParseResult[k].content)) mine.add(nm);
        }
        const vslot = n.props.find((p) => p.type === 7 && p.name === 'slot');
        let inner = mine;
        if (vslot && vslot.exp) {
            inner = new Set(mine);
            for (const nm of patternNames(vslot.exp.content)) inner.add(nm);
        }
        f(n, mine, anc);
        for (const c of n.children) go(c, inner, [...anc, n]);
    };
    for (const c of tpl.children) go(c, new Set(), []);
}
// expressions of an element: [{exp, kind, prop}]
function exprs(el) {
    const out = [];
    for (const p of el.props) {
        if (p.type !== 7) continue;
        if (p.name === 'for') {
            if (p.forParseResult) out.push({ exp: p.forParseResult.source, kind: 'for', prop: p });
            continue;
        }
        if (p.name === 'slot') continue;
        if (p.exp) out.push({ exp: p.exp, kind: p.name, prop: p });
        if (p.arg && p.arg.isStatic === false) out.push({ exp: p.arg, kind: 'arg', prop: p });
    }
    return out;
}
module.exports = { HTML, SVG, isBuiltin, BUILTIN_DIRS, JS_GLOBALS, INSTANCE, walkTemplate, exprs, freeIds, patternNames };
