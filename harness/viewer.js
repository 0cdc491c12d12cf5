// A stand-in browser: a small document, jQuery and d3, enough to open a page
// written by a visualisation and to observe what it shows.
// Protocol: one JSON request per line, one JSON answer per line.
'use strict';
const fs = require('fs');
const path = require('path');
const vm = require('vm');

// ------------------------------------------------------------- document
const VOID = new Set(['meta', 'link', 'input', 'br', 'hr', 'img']);
let registry;

class El {
  constructor(tag) {
    this.tag = tag; this.attrs = {}; this.css = {}; this.kids = [];
    this.parent = null; this.handlers = {}; this.shown = true;
    this.chosen = null; this.checked = false; this.datum = undefined;
  }
  get id() { return this.attrs.id; }
  get style() { return this.css; }
  get textContent() {
    return this.kids.map(k => typeof k === 'string' ? k : k.textContent).join('');
  }
  set textContent(v) { this.kids = [String(v)]; }
  set innerHTML(v) { this.kids = []; for (const k of parse(v)) this.add(k); }
  classes() { return (this.attrs['class'] || '').split(/\s+/).filter(x => x); }
  setClasses(l) { this.attrs['class'] = l.join(' '); }
  add(k) {
    if (k instanceof El) {
      if (k.parent) k.parent.kids = k.parent.kids.filter(x => x !== k);
      k.parent = this;
    }
    this.kids.push(k);
  }
  *all() {
    for (const k of this.kids) if (k instanceof El) { yield k; yield* k.all(); }
  }
  options() { return [...this.all()].filter(e => e.tag === 'option'); }
  get value() {
    if (this.tag === 'select') {
      const o = this.options();
      if (this.chosen !== null && o.some(x => x.value === this.chosen)) return this.chosen;
      return o.length ? o[0].value : null;
    }
    if (this.tag === 'option')
      return 'value' in this.attrs ? this.attrs.value : this.textContent;
    return this.typed === undefined ? (this.attrs.value || '') : this.typed;
  }
  set value(v) { if (this.tag === 'select') this.chosen = String(v); else this.typed = String(v); }
  appendChild(k) { this.add(k); return k; }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  removeAttribute(k) { delete this.attrs[k]; }
  hasAttribute(k) { return k in this.attrs; }
  get className() { return this.attrs['class'] || ''; }
  set className(v) { this.attrs['class'] = String(v); }
  get children() { return this.kids.filter(k => k instanceof El); }
  get parentNode() { return this.parent; }
  querySelector(s) { return query(this, s)[0] || null; }
  querySelectorAll(s) { return query(this, s); }
  addEventListener(t, f) { (this.handlers[t] = this.handlers[t] || []).push(f); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  remove() { if (this.parent) this.parent.kids = this.parent.kids.filter(k => k !== this); this.parent = null; }
  get classList() {
    const e = this;
    return { add: (...c) => e.setClasses([...new Set(e.classes().concat(c))]), remove: (...c) => e.setClasses(e.classes().filter(x => !c.includes(x))),
      contains: c => e.classes().includes(c), toggle: c => e.setClasses(e.classes().includes(c) ? e.classes().filter(x => x !== c) : e.classes().concat(c)) };
  }
  clone() {
    const c = new El(this.tag);
    c.attrs = Object.assign({}, this.attrs); c.css = Object.assign({}, this.css);
    c.shown = this.shown; c.checked = this.checked; c.datum = this.datum;
    for (const k of this.kids) c.add(typeof k === 'string' ? k : k.clone());
    return c;
  }
  fire(type, ev) {
    for (const h of this.handlers[type] || []) h.call(this, ev || { type, stopPropagation() {}, preventDefault() {}, target: this });
  }
}

function decode(s) {
  return s.replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&quot;/g, '"').replace(/&#39;/g, "'").replace(/&nbsp;/g, ' ').replace(/&amp;/g, '&');
}

function parse(html) {
  const top = new El('#top');
  let cur = top;
  let i = 0;
  html = String(html);
  while (i < html.length) {
    if (html.startsWith('<!--', i)) { const e = html.indexOf('-->', i); i = e < 0 ? html.length : e + 3; continue; }
    if (/^<!/.test(html.slice(i, i + 2))) { i = html.indexOf('>', i) + 1; continue; }
    let m = /^<\/([a-zA-Z0-9]+)\s*>/.exec(html.slice(i, i + 60));
    if (m) {
      let e = cur;
      while (e !== top && e.tag !== m[1].toLowerCase()) e = e.parent;
      if (e !== top) cur = e.parent;
      i += m[0].length; continue;
    }
    m = /^<([a-zA-Z][a-zA-Z0-9]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/.exec(html.slice(i));
    if (m) {
      const e = new El(m[1].toLowerCase());
      const re = /([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g;
      let a;
      while ((a = re.exec(m[2]))) e.attrs[a[1]] = decode(a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] !== undefined ? a[4] : '');
      if ('checked' in e.attrs) e.checked = true;
      if (/display:\s*none/.test(e.attrs.style || '')) e.shown = false;
      cur.add(e);
      i += m[0].length;
      if (e.tag === 'script' || e.tag === 'style') {
        const end = html.indexOf('</' + e.tag, i);
        e.kids = [html.slice(i, end)];
        i = html.indexOf('>', end) + 1;
      } else if (!VOID.has(e.tag) && !m[3]) cur = e;
      continue;
    }
    let j = html.indexOf('<', i + 1);
    if (j < 0) j = html.length;
    cur.add(decode(html.slice(i, j)));
    i = j;
  }
  const out = top.kids;
  for (const k of out) if (k instanceof El) k.parent = null;
  return out;
}

function compound(sel) {
  // one compound selector -> predicate
  const parts = [];
  let s = sel;
  while (s.length) {
    let m;
    if ((m = /^#([^\s.#:\[]+)/.exec(s))) { const v = m[1]; parts.push(e => e.id === v); }
    else if ((m = /^\.([^\s.#:\[]+)/.exec(s))) { const v = m[1]; parts.push(e => e.classes().includes(v)); }
    else if ((m = /^\[([^\]=]+)(?:=["']?([^"'\]]*)["']?)?\]/.exec(s))) { const [, a, v] = m; parts.push(e => a in e.attrs && (v === undefined || e.attrs[a] === v)); }
    else if ((m = /^:checked/.exec(s))) parts.push(e => e.checked || (e.tag === 'option' && e.parent && e.parent.value === e.value));
    else if ((m = /^:selected/.exec(s))) parts.push(e => e.parent && e.parent.value === e.value);
    else if ((m = /^:visible/.exec(s))) parts.push(e => e.shown);
    else if ((m = /^:hidden/.exec(s))) parts.push(e => !e.shown);
    else if ((m = /^\*/.exec(s))) parts.push(() => true);
    else if ((m = /^[a-zA-Z][\w-]*/.exec(s))) { const v = m[0].toLowerCase(); parts.push(e => e.tag.toLowerCase() === v); }
    else throw new Unsupported('selector ' + sel);
    s = s.slice(m[0].length);
  }
  return e => parts.every(p => p(e));
}

function query(base, sel) {
  const out = [];
  for (const alt of sel.split(',')) {
    const chain = alt.trim().replace(/\s*>\s*/g, ' ').split(/\s+/).map(compound);
    for (const e of base.all()) {
      if (!chain[chain.length - 1](e)) continue;
      let k = chain.length - 2, p = e.parent;
      while (k >= 0 && p) { if (chain[k](p)) k--; p = p.parent; }
      if (k < 0 && !out.includes(e)) out.push(e);
    }
  }
  return out;
}

// --------------------------------------------------------------- jQuery
function makeJQuery(doc) {
  class JQ {
    constructor(els) { this.els = els; this.length = els.length; els.forEach((e, i) => { this[i] = e; }); }
    each(f) { this.els.forEach((e, i) => f.call(e, i, e)); return this; }
    get(i) { return i === undefined ? this.els.slice() : this.els[i]; }
    toArray() { return this.els.slice(); }
    eq(i) { return new JQ(this.els.slice(i, i + 1 || undefined)); }
    first() { return this.eq(0); }
    last() { return new JQ(this.els.slice(-1)); }
    map(f) { return new JQ(this.els.map((e, i) => f.call(e, i, e))); }
    filter(f) { return new JQ(this.els.filter(typeof f === 'string' ? compound(f) : (e, i) => f.call(e, i, e))); }
    slice(a, b) { return new JQ(this.els.slice(a, b)); }
    add(x) { return new JQ([...new Set(this.els.concat($(x).els))]); }
    has(s) { return new JQ(this.els.filter(e => query(e, s).length)); }
    siblings() { return new JQ([].concat(...this.els.map(e => e.parent ? e.parent.kids.filter(k => k instanceof El && k !== e) : []))); }
    closest(s) { const p = compound(s); return new JQ(this.els.map(e => { while (e && !p(e)) e = e.parent; return e; }).filter(e => e)); }
    index() { const e = this.els[0]; return e && e.parent ? e.parent.kids.filter(k => k instanceof El).indexOf(e) : -1; }
    prependTo(t) { (typeof t === 'string' ? $(t) : t).prepend(this); return this; }
    bind(t, f) { return this.on(t, f); }
    unbind(t) { return this.off(t); }
    fadeIn() { return this.show(); }
    fadeOut() { return this.hide(); }
    not(f) { const p = compound(f); return new JQ(this.els.filter(e => !p(e))); }
    find(s) { return new JQ([].concat(...this.els.map(e => query(e, s)))); }
    children() { return new JQ([].concat(...this.els.map(e => e.kids.filter(k => k instanceof El)))); }
    parent() { return new JQ(this.els.map(e => e.parent).filter(e => e)); }
    text(v) {
      if (v === undefined) return this.els.map(e => e.textContent).join('');
      return this.each((i, e) => { e.textContent = typeof v === 'function' ? v.call(e, i, e.textContent) : v; });
    }
    html(v) {
      if (v === undefined) return this.length ? this.els[0].textContent : undefined;
      return this.each((i, e) => { if (v && v.els) { e.kids = []; v.els.forEach(k => e.add(k)); } else e.innerHTML = v; });
    }
    empty() { return this.each((i, e) => { e.kids = []; }); }
    remove() { return this.each((i, e) => { if (e.parent) e.parent.kids = e.parent.kids.filter(k => k !== e); e.parent = null; }); }
    append(...cs) {
      for (const c of cs.flat()) {
        const list = typeof c === 'string' ? parse(c) : c.els ? c.els : [c];
        this.each((i, e) => list.forEach(k => e.add(i < this.length - 1 && k.clone ? k.clone() : k)));
      }
      return this;
    }
    prepend(c) {
      const list = typeof c === 'string' ? parse(c) : c.els ? c.els : [c];
      return this.each((i, e) => { list.slice().reverse().forEach(k => { e.add(k); e.kids.unshift(e.kids.pop()); }); });
    }
    appendTo(t) { (typeof t === 'string' ? $(t) : t).append(this); return this; }
    clone() { return new JQ(this.els.map(e => e.clone())); }
    attr(k, v) {
      if (typeof k === 'object') { for (const x in k) this.attr(x, k[x]); return this; }
      if (v === undefined) return this.length ? this.els[0].attrs[k] : undefined;
      return this.each((i, e) => { e.attrs[k] = String(typeof v === 'function' ? v.call(e, i, e.attrs[k]) : v); });
    }
    removeAttr(k) { return this.each((i, e) => { delete e.attrs[k]; }); }
    prop(k, v) {
      if (v === undefined) return this.length ? this.els[0][k] : undefined;
      return this.each((i, e) => { e[k] = v; });
    }
    data(k) { return this.length ? this.els[0].attrs['data-' + k] : undefined; }
    val(v) {
      if (v === undefined) return this.length ? this.els[0].value : undefined;
      return this.each((i, e) => { e.value = v; });
    }
    is(s) { const p = compound(s); return this.els.some(e => p(e)); }
    css(k, v) {
      if (typeof k === 'object') { for (const x in k) this.css(x, k[x]); return this; }
      if (v === undefined) return this.length ? this.els[0].css[k] : undefined;
      return this.each((i, e) => { e.css[k] = v; if (k === 'display') e.shown = v !== 'none'; });
    }
    hide() { return this.each((i, e) => { e.shown = false; }); }
    show() { return this.each((i, e) => { e.shown = true; }); }
    toggle(b) { return this.each((i, e) => { e.shown = b === undefined ? !e.shown : !!b; }); }
    addClass(c) { return this.each((i, e) => e.setClasses([...new Set(e.classes().concat(c.split(/\s+/)))])); }
    removeClass(c) { return this.each((i, e) => e.setClasses(c === undefined ? [] : e.classes().filter(x => !c.split(/\s+/).includes(x)))); }
    toggleClass(c, b) { return this.each((i, e) => { const on = b === undefined ? !e.classes().includes(c) : b; e.setClasses(e.classes().filter(x => x !== c).concat(on ? [c] : [])); }); }
    hasClass(c) { return this.els.some(e => e.classes().includes(c)); }
    on(t, f) { return this.each((i, e) => t.split(/\s+/).forEach(x => (e.handlers[x] = e.handlers[x] || []).push(f))); }
    off(t) { return this.each((i, e) => { delete e.handlers[t]; }); }
    trigger(t) { return this.each((i, e) => e.fire(t)); }
    change(f) { return f ? this.on('change', f) : this.trigger('change'); }
    click(f) { return f ? this.on('click', f) : this.trigger('click'); }
    keyup(f) { return f ? this.on('keyup', f) : this.trigger('keyup'); }
    ready(f) { f(); return this; }
  }
  function $(x) {
    if (typeof x === 'function') { x(); return new JQ([]); }
    if (x === undefined || x === null) return new JQ([]);
    if (x instanceof JQ) return x;
    if (x instanceof El) return new JQ([x]);
    if (Array.isArray(x)) return new JQ(x);
    if (typeof x !== 'string') return new JQ([]);
    if (/^\s*</.test(x)) return new JQ(parse(x.trim()).filter(k => k instanceof El));
    return new JQ(query(doc, x));
  }
  $.fn = JQ.prototype;
  $.inArray = (v, l) => l.indexOf(v);
  $.each = (o, f) => { if (Array.isArray(o)) o.forEach((v, i) => f.call(v, i, v)); else for (const k in o) f.call(o[k], k, o[k]); return o; };
  $.map = (o, f) => o.map((v, i) => f(v, i));
  $.grep = (o, f) => o.filter((v, i) => f(v, i));
  $.trim = s => String(s).trim();
  $.isArray = Array.isArray;
  $.isNumeric = v => !isNaN(parseFloat(v)) && isFinite(v);
  $.extend = Object.assign;
  $.isEmptyObject = o => !Object.keys(o).length;
  $.makeArray = o => Array.from(o);
  lacks(JQ.prototype, 'jq');
  lacks($, 'jqs');
  return $;
}

// ------------------------------------------------------------------- d3
function makeD3(doc) {
  class Sel {
    constructor(els, parents) { this.els = els; this.parents = parents || []; }
    each(f) { this.els.forEach((e, i) => f.call(e, e.datum, i, this.els)); return this; }
    nodes() { return this.els.slice(); }
    node() { return this.els[0] || null; }
    size() { return this.els.length; }
    empty() { return !this.els.length; }
    select(s) {
      if (typeof s !== 'string') return new Sel([s]);
      const out = [];
      this.els.forEach(e => { const r = query(e, s)[0]; if (r) out.push(r); });
      return new Sel(out, this.els);
    }
    selectAll(s) {
      if (typeof s !== 'string') return new Sel(s);
      return new Sel([].concat(...this.els.map(e => query(e, s))), this.els);
    }
    data(list, key) {
      if (list === undefined) return this.els.map(e => e.datum);
      const n = this.els.length;
      this.els.forEach((e, i) => { if (i < list.length) e.datum = list[i]; });
      const s = new Sel(this.els.slice(0, list.length), this.parents);
      s.missing = list.slice(n);
      s.surplus = this.els.slice(list.length);
      return s;
    }
    datum(d) { if (d === undefined) return this.els[0] && this.els[0].datum; return this.each(function () { this.datum = d; }); }
    enter() {
      const s = new Sel([], this.parents);
      s.entering = this.missing || [];
      return s;
    }
    exit() { return new Sel(this.surplus || [], this.parents); }
    join(tag) { const made = this.enter().append(tag); return new Sel(this.els.concat(made.els), this.parents); }
    merge(o) { return new Sel(this.els.concat(o.els), this.parents); }
    append(tag) {
      const out = [];
      if (this.entering) {
        const p = this.parents[0];
        this.entering.forEach(d => { const e = new El(tag); e.datum = d; p.add(e); out.push(e); });
      } else {
        this.els.forEach(p => { const e = new El(tag); e.datum = p.datum; p.add(e); out.push(e); });
      }
      return new Sel(out, this.els);
    }
    remove() { this.els.forEach(e => { if (e.parent) e.parent.kids = e.parent.kids.filter(k => k !== e); e.parent = null; }); return this; }
    filter(f) { return new Sel(this.els.filter((e, i) => typeof f === 'string' ? compound(f)(e) : f.call(e, e.datum, i)), this.parents); }
    sort() { return this; }
    call(f, ...a) { f(this, ...a); return this; }
    set(f, v) { this.els.forEach((e, i) => f(e, typeof v === 'function' ? v.call(e, e.datum, i, this.els) : v)); return this; }
    attr(k, v) {
      if (v === undefined) return this.els[0] && this.els[0].attrs[k];
      return this.set((e, x) => { if (x === null) delete e.attrs[k]; else e.attrs[k] = String(x); }, v);
    }
    property(k, v) { if (v === undefined) return this.els[0] && this.els[0][k]; return this.set((e, x) => { e[k] = x; }, v); }
    classed(k, v) { if (v === undefined) return this.els[0] && this.els[0].classes().includes(k); return this.set((e, x) => e.setClasses(e.classes().filter(c => c !== k).concat(x ? [k] : [])), v); }
    style(k, v) {
      if (v === undefined) return this.els[0] && this.els[0].css[k];
      return this.set((e, x) => { e.css[k] = x; if (k === 'display') e.shown = x !== 'none'; }, v);
    }
    text(v) { if (v === undefined) return this.els[0] && this.els[0].textContent; return this.set((e, x) => { e.textContent = x === null || x === undefined ? '' : x; }, v); }
    html(v) { return this.set((e, x) => { e.innerHTML = x; }, v); }
    on(type, f) {
      if (f === undefined) { const e = this.els[0]; return e && e.d3on && e.d3on[type]; }
      this.els.forEach(e => { (e.d3on = e.d3on || {})[type] = f; });
      return this;
    }
    transition() { return new Trans(this.els); }
    interrupt() { return this; }
    raise() { return this; }
    lower() { return this; }
  }
  class Trans extends Sel {
    duration() { return this; }
    delay() { return this; }
    ease() { return this; }
    tween(name, f) { const t = f.call(null, undefined); if (typeof t === 'function') { t(0); t(1); } return this; }
    selectAll(s) { return new Trans((this.els.length ? this.els : [doc]).reduce((l, e) => l.concat(query(e, s)), [])); }
    filter(f) { return new Trans(super.filter(f).els); }
    on(type, f) { if (f && (type === 'start' || type === 'end')) this.each(function (d, i) { f.call(this, d, i); }); return this; }
    transition() { return this; }
  }
  class H {
    constructor(data, parent, depth) { this.data = data; this.parent = parent; this.depth = depth; this.height = 0; }
    descendants() { let out = [], q = [this]; while (q.length) { const n = q.shift(); out.push(n); if (n.children) q.push(...n.children); } return out; }
    each(f) { this.descendants().forEach(f); return this; }
    eachBefore(f) { return this.each(f); }
    eachAfter(f) { this.descendants().reverse().forEach(f); return this; }
    leaves() { return this.descendants().filter(n => !n.children); }
    ancestors() { const out = [this]; while (out[out.length - 1].parent) out.push(out[out.length - 1].parent); return out; }
    links() { return this.descendants().filter(n => n.parent).map(n => ({ source: n.parent, target: n })); }
    sum(f) { return this.eachAfter(n => { n.value = +f(n.data) || 0; (n.children || []).forEach(c => { n.value += c.value; }); }); }
    count() { return this.sum(() => 1); }
    sort(f) { return this.each(n => { if (n.children) n.children.sort(f); }); }
  }
  const d3 = {
    event: null,
    select: s => new Sel(typeof s === 'string' ? query(doc, s).slice(0, 1) : [s]),
    selectAll: s => new Sel(typeof s === 'string' ? query(doc, s) : s, [doc]),
    hierarchy(data, kids) {
      const get = kids || (d => d.children);
      const root = new H(data, null, 0);
      const q = [root];
      while (q.length) {
        const n = q.pop();
        const cs = get(n.data);
        if (cs && cs.length) {
          n.children = cs.map(c => new H(c, n, n.depth + 1));
          q.push(...n.children);
        }
      }
      root.eachAfter(n => { if (n.children) n.height = 1 + Math.max(...n.children.map(c => c.height)); });
      return root;
    },
    pack() {
      const p = root => { root.descendants().forEach((n, i) => { n.x = 10 + i; n.y = 20 + 2 * i; n.r = 1 + n.height; }); return root; };
      p.size = () => p; p.padding = () => p; p.radius = () => p;
      return p;
    },
    scaleLinear() {
      let dom = [0, 1], ran = [0, 1];
      const s = v => ({ t: (v - dom[0]) / (dom[1] - dom[0]), from: ran[0], to: ran[1] });
      s.domain = d => d === undefined ? dom.slice() : (dom = d.slice(), s);
      s.range = d => d === undefined ? ran.slice() : (ran = d.slice(), s);
      s.clamp = () => s;
      return s;
    },
    scaleOrdinal(range) {
      let dom = [], ran = range || [];
      const s = v => { let i = dom.indexOf(String(v)); if (i < 0) { dom.push(String(v)); i = dom.length - 1; } return ran[i % ran.length]; };
      s.domain = d => d === undefined ? dom.slice() : (dom = [...new Set(d.map(String))], s);
      s.range = d => d === undefined ? ran.slice() : (ran = d.slice(), s);
      return s;
    },
    scaleSequential(f) {
      let dom = [0, 1];
      const s = v => f((v - dom[0]) / (dom[1] - dom[0]));
      s.domain = d => d === undefined ? dom.slice() : (dom = d.slice(), s);
      s.interpolator = g => g === undefined ? f : (f = g, s);
      s.clamp = () => s;
      return s;
    },
    interpolateViridis: t => ({ t }),
    interpolateZoom: (a, b) => t => a.map((x, i) => x + (b[i] - x) * t),
    transition: () => new Trans([doc]),
    min: (l, f) => { let m; l.forEach((v, i) => { const x = f ? f(v, i) : v; if (m === undefined || x < m) m = x; }); return m; },
    max: (l, f) => { let m; l.forEach((v, i) => { const x = f ? f(v, i) : v; if (m === undefined || x > m) m = x; }); return m; },
    extent: (l, f) => [d3.min(l, f), d3.max(l, f)],
    sum: (l, f) => l.reduce((s, v, i) => s + (f ? f(v, i) : v), 0),
    keys: o => Object.keys(o), values: o => Object.values(o),
    format: () => v => String(v)
  };
  const colours = (p, n) => Array.from({ length: n }, (x, i) => p + i);
  d3.schemeCategory10 = colours('cat', 10);
  d3.schemeCategory20 = colours('cat', 20);
  d3.schemeSet3 = colours('set', 12);
  d3.schemeSet1 = colours('one', 9);
  d3.schemeSet2 = colours('two', 8);
  d3.schemePaired = colours('pair', 12);
  d3.schemeAccent = colours('acc', 8);
  d3.schemeDark2 = colours('dark', 8);
  d3.schemePastel1 = colours('pas', 9);
  lacks(Sel.prototype, 'sel');
  return lacks(d3, 'd3');
}

// Parts of the real interfaces that the stand-in lacks are not the page's fault.
class Unsupported extends Error {}
const KNOWN = {
  jq: `add addBack after ajaxComplete animate before bind blur clearQueue closest contents contextmenu dblclick delay delegate
    dequeue detach end even odd fadeIn fadeOut fadeTo fadeToggle finish focus focusin focusout has height hover index innerHeight
    innerWidth insertAfter insertBefore keydown keypress load mousedown mouseenter mouseleave mousemove mouseout mouseover mouseup
    next nextAll nextUntil offset offsetParent one outerHeight outerWidth parents parentsUntil position prependTo prev prevAll
    prevUntil promise pushStack queue removeData removeProp replaceAll replaceWith resize scroll scrollLeft scrollTop select
    serialize serializeArray siblings slice slideDown slideToggle slideUp stop submit triggerHandler unbind undelegate unwrap width
    wrap wrapAll wrapInner`,
  jqs: `ajax ajaxSetup Callbacks contains cssHooks Deferred error escapeSelector fx get getJSON getScript globalEval holdReady
    htmlPrefilter isEmptyObject isFunction isPlainObject isWindow isXMLDoc makeArray merge noConflict noop now parseHTML parseJSON
    parseXML post proxy queue ready removeData sub support type unique uniqueSort when`,
  sel: `selectChild selectChildren insert clone dispatch order local attrTween styleTween textTween end selection`,
  el: `accessKey after animate append appendChild attributes before childElementCount childNodes children classList className click
    closest contains dataset dispatchEvent firstChild firstElementChild focus getAttribute getBBox getBoundingClientRect hasAttribute
    hidden innerText insertAdjacentElement insertAdjacentHTML insertBefore lastChild lastElementChild matches nextElementSibling
    nextSibling nodeName nodeType nodeValue outerHTML parentElement parentNode prepend previousElementSibling previousSibling
    querySelector querySelectorAll remove removeAttribute removeChild removeEventListener replaceChild replaceChildren replaceWith
    selectedIndex selectedOptions setAttribute setAttributeNS tagName title addEventListener onclick onchange`,
  d3: `active arc area ascending axisBottom axisLeft axisRight axisTop bisect bisector brush chord cluster color create creator
    cross csv cubehelix customEvent descending deviation dispatch drag easeCubic easeLinear entries forceSimulation formatLocale
    geoPath group groups histogram hcl hsl interpolate interpolateNumber interpolateRgb interpolateHcl interpolateHsl interpolateArray
    interpolateBlues interpolateCool interpolateInferno interpolateMagma interpolatePlasma interpolateRainbow interpolateWarm json
    lab lch line local map mean median merge mouse namespace nest now packEnclose packSiblings pairs partition path pie quantile
    quantize range rgb rollup scaleBand scaleDiverging scaleIdentity scaleLog scalePoint scalePow scaleQuantile scaleQuantize
    scaleSqrt scaleThreshold scaleTime scaleUtc scan schemeBlues schemePastel2 schemeTableau10 selection selector set shuffle stack
    stratify style symbol text thresholdSturges ticks tickStep timeFormat timeout timer touch touches transpose tree treemap tsv
    variance version voronoi window xml zip zoom zoomIdentity zoomTransform interval index least greatest`
};
function lacks(obj, names) {
  for (const n of KNOWN[names].split(/\s+/)) {
    if (n in obj) continue;
    Object.defineProperty(obj, n, { configurable: true, get() { throw new Unsupported(n); },
      set(v) { Object.defineProperty(this, n, { value: v, writable: true, configurable: true }); } });
  }
  return obj;
}
lacks(El.prototype, 'el');

// ----------------------------------------------------------------- page
function open(dir) {
  const doc = new El('#document');
  for (const k of parse(fs.readFileSync(path.join(dir, 'viz.html'), 'utf8'))) doc.add(k);
  const $ = makeJQuery(doc);
  const alerts = [], errors = [];
  const con = { log() {}, info() {}, warn() {}, error: (...a) => errors.push(a.map(String).join(' ')) };
  const win = { innerHeight: 900, innerWidth: 1400, console: con };
  win.window = win; win.self = win; win.globalThis = win;
  win.$ = win.jQuery = $;
  win.d3 = makeD3(doc);
  win.alert = m => alerts.push(String(m));
  win.setTimeout = f => { f(); return 0; };
  win.document = {
    getElementById: i => query(doc, '#' + i)[0] || null,
    querySelector: s => query(doc, s)[0] || null,
    querySelectorAll: s => query(doc, s),
    getElementsByClassName: c => query(doc, '.' + c),
    getElementsByTagName: c => query(doc, c),
    createTextNode: t => String(t),
    createElement: t => new El(t),
    addEventListener: (t, f) => f(), ready: 1
  };
  vm.createContext(win);
  const run = (code, name) => new vm.Script(code, { filename: name }).runInContext(win, { timeout: 20000 });
  for (const s of query(doc, 'script')) {
    const src = s.attrs.src;
    if (src === undefined) run(s.kids[0], 'viz.html');
    else if (!/^(https?:)?\/\//.test(src)) run(fs.readFileSync(path.join(dir, src), 'utf8'), src);
  }
  return { doc, $, alerts, errors };
}

function plain(v) { return v === undefined ? null : v; }

function sheet(page) {
  const $ = page.$;
  const rows = [];
  for (const tr of query(page.doc, '#properties tr')) {
    rows.push(tr.kids.filter(k => k instanceof El).map(td => td.textContent));
  }
  return { name: $('#concept-name').text(), size: $('#concept-size').text(), kids: $('#concept-child-size').text(), rows,
    missing: $('#search-not-found').els[0].shown ? $('#search-not-found').text() : '' ,
    marked: query(page.doc, '.focus').map(e => e.id) };
}

function colours(page) {
  const out = {};
  for (const e of query(page.doc, 'circle')) out[e.id] = plain(e.css.fill === undefined ? e.attrs.fill : e.css.fill);
  const legend = query(page.doc, '#nom-val-colors tr').map(tr => {
    const td = tr.kids.filter(k => k instanceof El);
    return [td[0].textContent, plain(td[1].css['background-color'])];
  });
  const t = i => page.$(i).text();
  const vis = i => page.$(i).els[0].shown;
  return { circles: out, legend, nominal: vis('#nominal-colors'), numeric: vis('#numeric-colors'), low: t('#num-val-1'), mid: t('#num-val-5'), high: t('#num-val-9'),
    swatches: query(page.doc, '.num-swatch').map(e => plain(e.css['background-color'])),
    attrType: t('#focus-attr-type'), valType: t('#focus-val-type') };
}

function options(page) { return page.$('#focus-attr').els[0].options().map(o => o.value); }

function act(page, a) {
  const $ = page.$;
  switch (a[0]) {
    case 'sheet': break;
    case 'filter':
      for (const id of Object.keys(a[1])) {
        const e = $('#' + id).els[0];
        if (!e) throw new Error('the page has no box ' + id);
        if (e.checked !== a[1][id]) { e.checked = a[1][id]; e.fire('change'); }
      }
      break;
    case 'search':
      $('#search-concept-name').els[0].value = a[1];
      $('#search-concept-go').els[0].fire('click');
      break;
    case 'click': {
      const e = query(page.doc, 'circle').find(c => c.id === a[1]);
      if (!e) throw new Error('no circle ' + a[1]);
      e.d3on.click.call(e, e.datum, 0, [e]);
      break;
    }
    case 'colour':
      $('#binary-style').els[0].value = a[2];
      $('#focus-attr').els[0].value = a[1];
      $('#focus-attr').els[0].fire('change');
      return colours(page);
    default: throw new Error('unknown action ' + a[0]);
  }
  return sheet(page);
}

function serve(req) {
  const page = open(req.dir);
  const circles = query(page.doc, 'circle').map(e => e.id);
  const labels = query(page.doc, 'text').map(e => e.textContent);
  const first = sheet(page);
  const opts = options(page);
  const out = [];
  for (const a of req.actions) out.push(act(page, a));
  return { circles, labels, first, options: opts, out, alerts: page.alerts, errors: page.errors };
}

process.stdout.on('error', () => process.exit(0));
const rl = require('readline').createInterface({ input: process.stdin });
rl.on('line', line => {
  let ans;
  try { ans = serve(JSON.parse(line)); } catch (e) { ans = e instanceof Unsupported ? { unsupported: e.message } : { failed: String(e && e.stack || e) }; }
  process.stdout.write(JSON.stringify(ans) + '\n');
});
