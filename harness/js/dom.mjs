// A small document: enough of the DOM for a page that builds itself with innerHTML, textContent or createElement.
const VOID = new Set(['img', 'input', 'br', 'hr', 'meta', 'link', 'source', 'wbr', 'area', 'base', 'col', 'embed', 'track']);
const ENT = { lt: '<', gt: '>', amp: '&', quot: '"', apos: "'", nbsp: '\u00a0' };
const decode = (s) => s.replace(/&(?:#(\d+)|#x([0-9a-fA-F]+)|([a-zA-Z]+));/g, (all, d, x, n) => (d ? String.fromCodePoint(+d) : x ? String.fromCodePoint(parseInt(x, 16)) : ENT[n] ?? all));
const encode = (s) => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');

class Text {
  constructor(t) { this.data = String(t); this.nodeType = 3; }
  get textContent() { return this.data; }
  set textContent(t) { this.data = String(t); }
  get outerHTML() { return encode(this.data); }
}
export class Element {
  constructor(doc, tag) {
    this.ownerDocument = doc;
    this.localName = tag.toLowerCase();
    this.tagName = tag.toUpperCase();
    this.nodeType = 1;
    this.attributes = {};
    this.childNodes = [];
    this.parentNode = null;
    this.listeners = {};
    this.style = {};
    this.dataset = {};
    this.files = [];
    const el = this;
    this.classList = {
      get list() { return (el.attributes.class ?? '').split(/\s+/).filter(Boolean); },
      add(...c) { el.attributes.class = [...new Set([...this.list, ...c])].join(' '); },
      remove(...c) { el.attributes.class = this.list.filter((x) => !c.includes(x)).join(' '); },
      contains(c) { return this.list.includes(c); },
      toggle(c, on = !this.contains(c)) { on ? this.add(c) : this.remove(c); return on; },
    };
  }
  get id() { return this.attributes.id ?? ''; }
  set id(v) { this.attributes.id = String(v); }
  get className() { return this.attributes.class ?? ''; }
  set className(v) { this.attributes.class = String(v); }
  setAttribute(k, v) { this.attributes[k] = String(v); }
  getAttribute(k) { return this.attributes[k] ?? null; }
  hasAttribute(k) { return k in this.attributes; }
  removeAttribute(k) { delete this.attributes[k]; }
  get children() { return this.childNodes.filter((c) => c.nodeType === 1); }
  get firstChild() { return this.childNodes[0] ?? null; }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(''); }
  set textContent(t) { this.childNodes = String(t) === '' ? [] : [new Text(t)]; }
  get innerText() { return this.textContent; }
  set innerText(t) { this.textContent = t; }
  get innerHTML() { return this.childNodes.map((c) => c.outerHTML).join(''); }
  set innerHTML(h) { this.childNodes = []; parse(this.ownerDocument, String(h), this); }
  get outerHTML() {
    const a = Object.entries(this.attributes).map(([k, v]) => ` ${k}="${v.replace(/&/g, '&amp;').replace(/"/g, '&quot;')}"`).join('');
    return `<${this.localName}${a}>` + (VOID.has(this.localName) ? '' : `${this.innerHTML}</${this.localName}>`);
  }
  insertAdjacentHTML(where, h) {
    const holder = new Element(this.ownerDocument, 'div');
    parse(this.ownerDocument, String(h), holder);
    if (where === 'beforeend') this.append(...holder.childNodes);
    else if (where === 'afterbegin') this.prepend(...holder.childNodes);
    else throw new Error('insertAdjacentHTML ' + where);
  }
  node(n) {
    if (typeof n !== 'object') n = new Text(n);
    if (n.localName === '#fragment') return n.childNodes.splice(0).map((c) => ((c.parentNode = this), c));
    n.remove?.();
    n.parentNode = this;
    return [n];
  }
  append(...n) { this.childNodes.push(...n.flatMap((x) => this.node(x))); this.ownerDocument.added(this, n); }
  prepend(...n) { this.childNodes.unshift(...n.flatMap((x) => this.node(x))); }
  appendChild(n) { this.append(n); return n; }
  removeChild(n) { n.remove(); return n; }
  replaceChildren(...n) { this.childNodes = []; this.append(...n); }
  remove() {
    if (this.parentNode) this.parentNode.childNodes = this.parentNode.childNodes.filter((c) => c !== this);
    this.parentNode = null;
  }
  *all() {
    for (const c of this.children) {
      yield c;
      yield* c.all();
    }
  }
  matches(sel) {
    return sel.split(',').some((s) => {
      const m = s.trim().match(/^([a-zA-Z0-9]*)((?:[.#][\w-]+)*)$/);
      if (!m) throw new Error('selector ' + sel);
      if (m[1] && m[1].toLowerCase() !== this.localName) return false;
      return (m[2].match(/[.#][\w-]+/g) ?? []).every((x) => (x[0] === '#' ? this.id === x.slice(1) : this.classList.contains(x.slice(1))));
    });
  }
  querySelectorAll(sel) { return [...this.all()].filter((e) => e.matches(sel)); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
  addEventListener(t, f) { (this.listeners[t] ??= []).push(f); }
  removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] ?? []).filter((g) => g !== f); }
  dispatch(type, extra = {}) {
    const e = { type, target: this, currentTarget: this, defaultPrevented: false, preventDefault() { this.defaultPrevented = true; }, stopPropagation() {}, ...extra };
    for (const f of [...(this.listeners[type] ?? [])]) f.call(this, e);
    this['on' + type]?.(e);
    return e;
  }
  click() { ++this.ownerDocument.clicks; if (this.localName !== 'input') this.dispatch('click'); }
}

export function parse(doc, html, into) {
  let at = 0;
  const stack = [into];
  const top = () => stack[stack.length - 1];
  const text = (t) => { if (t) { const n = new Text(decode(t)); n.parentNode = top(); top().childNodes.push(n); } };
  while (at < html.length) {
    const rest = html.slice(at);
    let m;
    if ((m = rest.match(/^<!--[\s\S]*?-->|^<![^>]*>/))) at += m[0].length;
    else if ((m = rest.match(/^<\/([a-zA-Z][\w-]*)\s*>/))) {
      at += m[0].length;
      for (let i = stack.length - 1; i > 0; --i)
        if (stack[i].localName === m[1].toLowerCase()) {
          stack.length = i;
          break;
        }
    } else if ((m = rest.match(/^<([a-zA-Z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?|\s+\/?|\/)*)>/))) {
      at += m[0].length;
      const e = new Element(doc, m[1]);
      for (const a of m[2].matchAll(/([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) e.attributes[a[1].toLowerCase()] = decode(a[2] ?? a[3] ?? a[4] ?? '');
      e.parentNode = top();
      top().childNodes.push(e);
      if (!VOID.has(e.localName)) stack.push(e);
    } else {
      m = rest.match(/^[\s\S][^<]*/);
      text(m[0]);
      at += m[0].length;
    }
  }
}

export class Document {
  constructor(html) {
    this.clicks = 0;
    this.scripts = [];         // those added to the page
    this.root = new Element(this, '#root');
    parse(this, html, this.root);
    this.body = this.root.querySelector('body') ?? this.root;
    this.head = this.root.querySelector('head') ?? this.root;
    this.documentElement = this.root;
  }
  added(parent, nodes) { for (const n of nodes) if (n?.localName === 'script') this.scriptAdded?.(n); }
  createElement(t) { return new Element(this, t); }
  createTextNode(t) { return new Text(t); }
  createDocumentFragment() { return new Element(this, '#fragment'); }
  getElementById(id) { return [...this.root.all()].find((e) => e.id === id) ?? null; }
  querySelector(s) { return this.root.querySelector(s); }
  querySelectorAll(s) { return this.root.querySelectorAll(s); }
  addEventListener() {}
}
