// A small document: enough of the DOM for the user interface to run in, without a browser.
// What it does not offer is reported as unsupported, never as a fault of the code under test.
export class Unsupported extends Error {}

const VOID = new Set(['meta', 'link', 'br', 'img', 'input', 'hr']);
const EVENTS = ['onclick', 'onmouseover', 'onmouseenter', 'onmouseleave', 'onmouseup', 'onmousedown', 'onmousemove',
    'onmouseout', 'oninput', 'onchange', 'onkeydown', 'onkeyup', 'onfocus', 'onblur', 'ondblclick', 'oncontextmenu'];
const escapeText = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escapeAttr = s => s.replace(/&/g, '&amp;').replace(/"/g, '&quot;');
const unescape = s => s.replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&quot;/g, '"').replace(/&#39;/g, "'").replace(/&nbsp;/g, '\u00a0').replace(/&amp;/g, '&');
const dashed = s => String(s).replace(/[A-Z]/g, c => '-' + c.toLowerCase());
const camel = s => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());

function guard(o, name) {
    return new Proxy(o, {
        get(t, k, r) {
            if (k in t || typeof k === 'symbol') {
                return Reflect.get(t, k, r);
            }
            if (k === 'then' || k === 'toJSON' || k === 'nodeName') {
                return undefined;
            }
            // Whatever a script keeps on an element itself starts out undefined
            if (known.has(k)) {
                throw new Unsupported(`${name}.${String(k)}`);
            }
            return undefined;
        },
    });
}
// Members of real elements that are not offered here
const known = new Set(('animate attachShadow checkVisibility computedStyleMap getBoundingClientRect getClientRects ' +
    'scrollIntoView setPointerCapture offsetWidth offsetHeight clientWidth clientHeight namespaceURI setHTMLUnsafe ' +
    'compareDocumentPosition isEqualNode normalize moveBefore createTreeWalker evaluate write open ' +
    'getElementsByName createNodeIterator importNode adoptNode forms images scripts cookie location defaultView getSelection').split(' '));

export class Node {
    constructor(doc) {
        this.ownerDocument = doc;
        this.parentNode = null;
        this.childNodes = [];
    }
    get parentElement() { return this.parentNode instanceof Element ? this.parentNode.self : null; }
    get firstChild() { return this.childNodes[0] ?? null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
    get nextElementSibling() { return this.beside(1); }
    get previousElementSibling() { return this.beside(-1); }
    beside(d) {
        const l = this.parentNode?.children ?? [];
        return l[l.indexOf(this.self) + d] ?? null;
    }
    getRootNode() {
        let n = this.self;
        while (n.parentNode) {
            n = n.parentNode;
        }
        return n === this.ownerDocument.documentElement ? this.ownerDocument : n;
    }
    get nextSibling() { return this.at(1); }
    get previousSibling() { return this.at(-1); }
    at(d) {
        const p = this.parentNode;
        return p ? p.childNodes[p.childNodes.indexOf(this.self) + d] ?? null : null;
    }
    get isConnected() {
        let n = this.self;
        while (n.parentNode) {
            n = n.parentNode;
        }
        return n === this.ownerDocument.documentElement;
    }
    get self() { return this._self ?? this; }
    contains(n) {
        for (; n; n = n.parentNode) {
            if (n === this.self) {
                return true;
            }
        }
        return false;
    }
    remove() {
        if (this.parentNode) {
            this.parentNode.childNodes.splice(this.parentNode.childNodes.indexOf(this.self), 1);
            this.parentNode = null;
        }
    }
    hasChildNodes() { return this.childNodes.length > 0; }
    place(list, before) {
        for (let n of list.flatMap(n => n instanceof Fragment ? [...n.childNodes] : [n])) {
            if (typeof n === 'string') {
                n = this.ownerDocument.createTextNode(n);
            }
            if (!(n instanceof Node)) {
                throw new TypeError('parameter is not of type Node');
            }
            if (n.contains(this.self)) {
                throw new Error('HierarchyRequestError');
            }
            n.remove();
            const at = before ? this.childNodes.indexOf(before) : this.childNodes.length;
            this.childNodes.splice(at, 0, n);
            n.parentNode = this.self;
        }
    }
    appendChild(n) { this.place([n], null); return n; }
    append(...l) { this.place(l, null); }
    prepend(...l) { this.place(l, this.firstChild); }
    insertBefore(n, b) { this.place([n], b); return n; }
    removeChild(n) {
        if (!(n instanceof Node)) {
            throw new TypeError("Failed to execute 'removeChild' on 'Node': parameter 1 is not of type 'Node'");
        }
        if (n.parentNode !== this.self) {
            throw new Error('NotFoundError: the node to be removed is not a child of this node');
        }
        n.remove();
        return n;
    }
    replaceChild(n, o) { this.place([n], o); this.removeChild(o); return o; }
    replaceChildren(...l) {
        for (const n of [...this.childNodes]) {
            n.remove();
        }
        this.place(l, null);
    }
    before(...l) { this.parentNode.place(l, this.self); }
    after(...l) { this.parentNode.place(l, this.nextSibling); }
    replaceWith(...l) { this.before(...l); this.remove(); }
    get textContent() { return this.childNodes.map(n => n.textContent).join(''); }
    set textContent(s) { this.replaceChildren(...(String(s ?? '') ? [String(s)] : [])); }
    all(test) {
        return this.childNodes.flatMap(n => n instanceof Element ? [...(test(n) ? [n] : []), ...n.all(test)] : []);
    }
    get children() {
        const l = this.childNodes.filter(n => n instanceof Element);
        l.item = i => l[i] ?? null;
        l.namedItem = id => l.find(e => e.id === id) ?? null;
        return l;
    }
    get childElementCount() { return this.children.length; }
    get firstElementChild() { return this.children[0] ?? null; }
    get lastElementChild() { return this.children.at(-1) ?? null; }
    querySelectorAll(sel) {
        const f = selector(sel);
        const l = this.all(e => f(e, this.self));
        l.item = i => l[i] ?? null;
        return l;
    }
    querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
    getElementsByClassName(c) { return this.all(e => String(c).split(/\s+/).every(k => e.classList.contains(k))); }
    getElementsByTagName(t) { return this.all(e => t === '*' || e.localName === t.toLowerCase()); }
}

/** A selector: lists of compounds with combinators between them. */
export function selector(sel) {
    const text = String(sel);
    let i = 0;
    const refuse = () => { throw new Unsupported(`selector ${sel}`); };
    const name = () => {
        let n = '';
        for (; i < text.length; i++) {
            if (text[i] === '\\') {
                const hex = /^[0-9a-fA-F]{1,6}\s?/.exec(text.slice(i + 1));
                n += hex ? String.fromCodePoint(parseInt(hex[0], 16)) : text[i + 1] ?? '';
                i += hex ? hex[0].length : 1;
            } else if (/[-\w\u0080-\uffff]/.test(text[i])) {
                n += text[i];
            } else {
                break;
            }
        }
        return n || refuse();
    };
    const blanks = () => {
        const from = i;
        while (/\s/.test(text[i] ?? '')) {
            i++;
        }
        return i > from;
    };
    const eat = c => text[i] === c && (i++, true);
    const value = () => {
        const q = text[i];
        if (q !== '"' && q !== "'") {
            return name();
        }
        let v = '';
        for (i++; text[i] !== q; i++) {
            if (text[i] === undefined) {
                refuse();
            }
            if (text[i] === '\\') {
                i++;
            }
            v += text[i];
        }
        i++;
        return v;
    };
    const one = () => {
        const tests = [];
        if (eat('*')) {
            tests.push(() => true);
        } else if (/[\w\\-]/.test(text[i] ?? '')) {
            const t = name().toLowerCase();
            tests.push(e => e.localName === t);
        }
        for (;;) {
            if (eat('#')) {
                const id = name();
                tests.push(e => e.id === id);
            } else if (eat('.')) {
                const c = name();
                tests.push(e => e.classList.contains(c));
            } else if (eat('[')) {
                blanks();
                const k = name();
                blanks();
                const op = /^[~|^$*]?=/.exec(text.slice(i))?.[0];
                i += op?.length ?? 0;
                blanks();
                const v = op && value();
                blanks();
                eat(']') || refuse();
                tests.push(e => {
                    const a = e.getAttribute(k);
                    return a !== null && (!op || (op === '=' ? a === v : op === '^=' ? a.startsWith(v) : op === '$=' ? a.endsWith(v) : op === '*=' ? a.includes(v)
                        : op === '~=' ? a.split(/\s+/).includes(v) : a === v || a.startsWith(v + '-')));
                });
            } else if (eat(':')) {
                const k = name();
                if (k === 'not' || k === 'is' || k === 'where') {
                    eat('(') || refuse();
                    const f = list();
                    eat(')') || refuse();
                    tests.push(k === 'not' ? (e, s) => !f(e, s) : f);
                } else if (k === 'first-child' || k === 'last-child' || k === 'only-child') {
                    tests.push(e => {
                        const l = e.parentNode?.children ?? [];
                        return (k === 'last-child' || l[0] === e) && (k === 'first-child' || l[l.length - 1] === e);
                    });
                } else if (k === 'empty') {
                    tests.push(e => e.childNodes.length === 0);
                } else if (k === 'scope') {
                    tests.push((e, s) => e === s);
                } else if (k === 'root') {
                    tests.push(e => e === e.ownerDocument.documentElement);
                } else {
                    refuse();
                }
            } else {
                break;
            }
        }
        return tests.length ? (e, s) => tests.every(t => t(e, s)) : refuse();
    };
    const complex = () => {
        blanks();
        let f = /[>+~]/.test(text[i] ?? '') ? (e, s) => e === s : one();
        for (;;) {
            const gap = blanks();
            const how = text[i] === '>' || text[i] === '+' || text[i] === '~' ? text[i++] : gap && i < text.length && text[i] !== ',' && text[i] !== ')' ? ' ' : '';
            if (!how) {
                return f;
            }
            blanks();
            const [left, right] = [f, one()];
            f = (e, s) => {
                if (!right(e, s)) {
                    return false;
                }
                if (how === '>') {
                    return e.parentNode instanceof Element && left(e.parentNode.self, s);
                }
                if (how === '+') {
                    return e.previousElementSibling !== null && left(e.previousElementSibling, s);
                }
                for (let n = how === ' ' ? e.parentElement : e.previousElementSibling; n; n = how === ' ' ? n.parentElement : n.previousElementSibling) {
                    if (left(n, s)) {
                        return true;
                    }
                }
                return false;
            };
        }
    };
    const list = () => {
        const l = [complex()];
        while (eat(',')) {
            l.push(complex());
        }
        return (e, s) => l.some(f => f(e, s));
    };
    const f = list();
    return i < text.length ? refuse() : f;
}

export const CSS = {
    escape: s => String(s).replace(/^-?\d|^-$|[^-\w\u0080-\uffff]/g, c => {
        const esc = d => /\d/.test(d) ? `\\${d.codePointAt(0).toString(16)} ` : '\\' + d;
        return c.length === 2 ? '-' + esc(c[1]) : esc(c);
    }),
    supports: () => false,
};

class Text extends Node {
    constructor(doc, data) { super(doc); this.data = data; this.nodeType = 3; }
    get textContent() { return this.data; }
    set textContent(s) { this.data = String(s); }
    get nodeValue() { return this.data; }
    cloneNode() { return new Text(this.ownerDocument, this.data); }
    get html() { return escapeText(this.data); }
}

class Fragment extends Node {
    constructor(doc) { super(doc); this.nodeType = 11; }
    cloneNode(deep) {
        const f = new Fragment(this.ownerDocument);
        if (deep) {
            f.append(...this.childNodes.map(n => n.cloneNode(true)));
        }
        return f;
    }
    getElementById(id) { return this.all(e => e.id === String(id))[0] ?? null; }
    get html() { return this.childNodes.map(n => n.html).join(''); }
}

export class Element extends Node {
    constructor(doc, tag) {
        super(doc);
        this.nodeType = 1;
        this.localName = tag.toLowerCase();
        this.attrs = new Map();
        this.listeners = [];
        for (const e of EVENTS) {
            this[e] = null;
        }
        const el = this;
        this.style = new Proxy({}, {
            get: (t, k) => k === 'setProperty' ? (n, v) => { t[camel(n)] = v; }
                : k === 'removeProperty' ? n => { delete t[camel(n)]; }
                : k === 'getPropertyValue' ? n => t[camel(n)] ?? ''
                : k === 'cssText' ? Object.entries(t).map(([a, b]) => `${a}: ${b};`).join(' ')
                : typeof k === 'symbol' ? t[k] : t[k] ?? '',
            set: (t, k, v) => {
                if (k === 'cssText') {
                    Object.keys(t).forEach(n => delete t[n]);
                    for (const [n, x] of String(v).split(';').map(d => d.split(/:(.*)/s))) {
                        if (x !== undefined) {
                            t[camel(n.trim())] = x.trim();
                        }
                    }
                } else {
                    t[k] = String(v);
                }
                return true;
            },
        });
        this.classList = {
            list: () => el.className.split(/\s+/).filter(Boolean),
            contains(c) { return this.list().includes(c); },
            add(...c) { el.className = [...new Set([...this.list(), ...c])].join(' '); },
            remove(...c) { el.className = this.list().filter(x => !c.includes(x)).join(' '); },
            toggle(c, on = !this.contains(c)) { on ? this.add(c) : this.remove(c); return on; },
            replace(a, b) {
                const l = this.list();
                if (!l.includes(a)) {
                    return false;
                }
                el.className = [...new Set(l.map(x => x === a ? b : x))].join(' ');
                return true;
            },
            item(i) { return this.list()[i] ?? null; },
            get length() { return this.list().length; },
            get value() { return el.className; },
            set value(v) { el.className = v; },
            forEach(f) { this.list().forEach(f); },
            toString() { return el.className; },
            [Symbol.iterator]() { return this.list()[Symbol.iterator](); },
        };
        this.dataset = new Proxy({}, {
            get: (t, k) => typeof k === 'symbol' ? t[k] : el.getAttribute('data-' + dashed(k)) ?? undefined,
            set: (t, k, v) => { el.setAttribute('data-' + dashed(k), v); return true; },
            has: (t, k) => typeof k !== 'symbol' && el.hasAttribute('data-' + dashed(k)),
            deleteProperty: (t, k) => { el.removeAttribute('data-' + dashed(k)); return true; },
        });
        this._self = guard(this, tag);
        return this._self;
    }
    get tagName() { return this.localName.toUpperCase(); }
    get id() { return this.attrs.get('id') ?? ''; }
    set id(v) { this.attrs.set('id', String(v)); }
    get className() { return this.attrs.get('class') ?? ''; }
    set className(v) { this.attrs.set('class', String(v)); }
    getAttribute(n) { return this.attrs.get(n) ?? null; }
    setAttribute(n, v) {
        this.attrs.set(n, String(v));
        if (n === 'style') {
            this.style.cssText = String(v);
        }
    }
    toggleAttribute(n, on = !this.hasAttribute(n)) {
        on ? this.hasAttribute(n) || this.setAttribute(n, '') : this.removeAttribute(n);
        return on;
    }
    getAttributeNames() { return [...this.attrs.keys()]; }
    hasAttributes() { return this.attrs.size > 0; }
    get attributes() { return [...this.attrs].map(([name, value]) => ({ name, value })); }
    get hidden() { return this.hasAttribute('hidden'); }
    set hidden(v) { this.toggleAttribute('hidden', !!v); }
    get title() { return this.getAttribute('title') ?? ''; }
    set title(v) { this.setAttribute('title', v); }
    get outerText() { return this.textContent; }
    insertAdjacentText(where, s) { this.adjacent(where, [String(s)]); }
    hasAttribute(n) { return this.attrs.has(n); }
    removeAttribute(n) { this.attrs.delete(n); }
    matches(sel) { return selector(sel)(this.self, this.self); }
    closest(sel) {
        const f = selector(sel);
        for (let n = this.self; n instanceof Element; n = n.parentNode) {
            if (f(n, this.self)) {
                return n;
            }
        }
        return null;
    }
    get html() {
        const a = [...this.attrs].map(([k, v]) => ` ${k}="${escapeAttr(v)}"`).join('');
        return VOID.has(this.localName) ? `<${this.localName}${a}>` : `<${this.localName}${a}>${this.innerHTML}</${this.localName}>`;
    }
    get content() {
        if (this.localName !== 'template') {
            return undefined;
        }
        // What a template holds is apart from its children
        return this._content ??= new Fragment(this.ownerDocument);
    }
    get innerHTML() { return (this.content ?? this).childNodes.map(n => n.html).join(''); }
    set innerHTML(s) { (this.content ?? this).replaceChildren(...parse(this.ownerDocument, String(s))); }
    get outerHTML() { return this.html; }
    set outerHTML(s) { this.replaceWith(...parse(this.ownerDocument, String(s))); }
    get innerText() { return this.textContent; }
    set innerText(s) { this.textContent = s; }
    insertAdjacentHTML(where, s) { this.adjacent(where, parse(this.ownerDocument, String(s))); }
    insertAdjacentElement(where, e) { this.adjacent(where, [e]); return e; }
    adjacent(where, list) {
        switch (where.toLowerCase()) {
            case 'beforeend': return this.append(...list);
            case 'afterbegin': return this.prepend(...list);
            case 'beforebegin': return this.before(...list);
            case 'afterend': return this.after(...list);
            default: throw new SyntaxError(`insertAdjacent ${where}`);
        }
    }
    cloneNode(deep) {
        const e = this.ownerDocument.createElement(this.localName);
        for (const [k, v] of this.attrs) {
            e.setAttribute(k, v);
        }
        if (deep) {
            e.append(...this.childNodes.map(n => n.cloneNode(true)));
        }
        return e;
    }
    addEventListener(type, f, o) { this.listeners.push([type, f, o?.once === true]); }
    removeEventListener(type, f) { this.listeners = this.listeners.filter(l => l[0] !== type || l[1] !== f); }
    click() { this.dispatchEvent({ type: 'click', bubbles: true }); }
    dispatchEvent(e) {
        const at = { preventDefault() {}, stopPropagation() { at.stopped = true; }, ...e, target: this.self };
        const path = [];
        for (let n = this.self; n instanceof Element; n = n.parentNode) {
            path.push(n);
        }
        for (const n of e.bubbles ? path : path.slice(0, 1)) {
            at.currentTarget = n;
            for (const l of [...n.listeners]) {
                if (l[0] === e.type) {
                    if (l[2]) {
                        n.removeEventListener(l[0], l[1]);
                    }
                    (typeof l[1] === 'function' ? l[1] : l[1].handleEvent).call(n, at);
                }
            }
            if (typeof n['on' + e.type] === 'function') {
                n['on' + e.type](at);
            }
            if (at.stopped) {
                break;
            }
        }
        return true;
    }
}

export function parse(doc, html) {
    const top = new Fragment(doc);
    const stack = [top];
    const re = /<!--[\s\S]*?-->|<!DOCTYPE[^>]*>|<\/([a-zA-Z0-9]+)\s*>|<([a-zA-Z][a-zA-Z0-9]*)((?:[^>"']|"[^"]*"|'[^']*')*)>|[^<]+|</gi;
    for (let m; (m = re.exec(html));) {
        const last = stack[stack.length - 1];
        if (m[1]) {
            const i = stack.findLastIndex(e => e.localName === m[1].toLowerCase());
            if (i > 0) {
                stack.length = i;
            }
        } else if (m[2]) {
            const e = doc.createElement(m[2]);
            for (const a of m[3].matchAll(/([^\s=/"'>]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) {
                const k = a[1].toLowerCase();
                if (!e.hasAttribute(k)) {
                    e.setAttribute(k, unescape(a[2] ?? a[3] ?? a[4] ?? ''));
                }
            }
            last.appendChild(e);
            if (!VOID.has(e.localName) && !/\/\s*$/.test(m[3])) {
                stack.push(e);
            }
        } else if (!m[0].startsWith('<!')) {
            last.appendChild(doc.createTextNode(unescape(m[0])));
        }
    }
    for (const n of top.childNodes) {
        n.parentNode = null;
    }
    return top.childNodes;
}

export class Document {
    constructor(html) {
        const nodes = parse(this.self, html);
        this.documentElement = nodes.find(n => n instanceof Element);
        this.readyState = 'complete';
        return guard(this, 'document');
    }
    get self() { return this; }
    get body() { return this.documentElement.querySelector('body'); }
    get head() { return this.documentElement.querySelector('head'); }
    getElementById(id) { return this.documentElement.all(e => e.id === String(id))[0] ?? null; }
    querySelector(s) { return this.documentElement.querySelector(s); }
    querySelectorAll(s) { return this.documentElement.querySelectorAll(s); }
    getElementsByClassName(c) { return this.documentElement.getElementsByClassName(c); }
    getElementsByTagName(c) { return this.documentElement.getElementsByTagName(c); }
    createElement(t) { return new Element(this, t); }
    createTextNode(s) { return new Text(this, String(s)); }
    createRange() { return { selectNode() {}, selectNodeContents() {}, setStart() {}, createContextualFragment: h => { const f = new Fragment(this); f.append(...parse(this, String(h))); return f; } }; }
    createDocumentFragment() { return new Fragment(this); }
    contains(n) { return this.documentElement.contains(n); }
    addEventListener(type, f) { if (type === 'DOMContentLoaded') f(); }
}
