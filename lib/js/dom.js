/* A document object model just large enough for generated formatters, with the
 * semantics of the DOM standard for what it has. */
class Node {
	constructor() { this.parentNode = null; this.childNodes = []; }
	get firstChild() { return this.childNodes.length ? this.childNodes[0] : null; }
	get children() { return this.childNodes.filter(c => c instanceof Element); }
	removeChild(c) {
		const i = this.childNodes.indexOf(c);
		if (i < 0)
			throw new Error('NotFoundError');
		this.childNodes.splice(i, 1);
		c.parentNode = null;
		return c;
	}
	appendChild(c) {
		if (c.parentNode !== null)
			c.parentNode.removeChild(c);
		this.childNodes.push(c);
		c.parentNode = this;
		return c;
	}
	append(...cs) {
		for (const c of cs)
			this.appendChild(c instanceof Node ? c : new Text(String(c)));
	}
	replaceChildren(...cs) {
		while (this.firstChild)
			this.removeChild(this.firstChild);
		this.append(...cs);
	}
	get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
	set textContent(v) {
		if (v === null || v === '')
			this.replaceChildren();
		else
			this.replaceChildren(new Text(String(v)));
	}
}

class Text extends Node {
	constructor(data) { super(); this.data = String(data); }
	get textContent() { return this.data; }
	cloneNode() { return new Text(this.data); }
}

class ClassList {
	constructor(e) { this.e = e; }
	list() { return [...new Set((this.e.getAttribute('class') ?? '').split(/[ \t\n\f\r]+/).filter(x => x !== ''))]; }
	contains(c) { return this.list().includes(c); }
	check(c) {
		if (c === '' || /[ \t\n\f\r]/.test(c))
			throw new Error('InvalidCharacterError: ' + JSON.stringify(c));
	}
	add(...cs) {
		cs.forEach(c => this.check(c));
		this.e.setAttribute('class', [...new Set([...this.list(), ...cs])].join(' '));
	}
	remove(...cs) {
		cs.forEach(c => this.check(c));
		if (this.e.hasAttribute('class'))
			this.e.setAttribute('class', this.list().filter(c => !cs.includes(c)).join(' '));
	}
}

class Element extends Node {
	constructor(tag) { super(); this.localName = tag; this.attrs = new Map(); this.classList = new ClassList(this); }
	get tagName() { return this.localName.toUpperCase(); }
	getAttribute(n) { return this.attrs.has(n) ? this.attrs.get(n) : null; }
	hasAttribute(n) { return this.attrs.has(n); }
	setAttribute(n, v) { this.attrs.set(n, String(v)); }
	removeAttribute(n) { this.attrs.delete(n); }
	walk(f, out) {
		for (const c of this.children) {
			if (f(c))
				out.push(c);
			c.walk(f, out);
		}
		return out;
	}
	live(f) {
		const at = () => this.walk(f, []);
		return new Proxy({}, {
			has: (t, k) => typeof k === 'string' && /^\d+$/.test(k) ? Number(k) < at().length : k === 'length',
			get: (t, k) => {
				if (k === 'length')
					return at().length;
				if (k === 'item')
					return i => at()[i] ?? null;
				if (k === Symbol.iterator)
					return function*() { for (let i = 0; i < at().length; i++) yield at()[i]; };
				return typeof k === 'string' && /^\d+$/.test(k) ? at()[Number(k)] : undefined;
			},
		});
	}
	getElementsByClassName(c) {
		const l = c.split(/[ \t\n\f\r]+/).filter(x => x !== '');
		return this.live(e => l.length > 0 && l.every(x => e.classList.contains(x)));
	}
	getElementsByTagName(t) { return this.live(e => e.localName === t.toLowerCase()); }
	cloneNode(deep) {
		const e = new this.constructor(this.localName);
		for (const [k, v] of this.attrs)
			e.attrs.set(k, v);
		if (deep)
			for (const c of this.childNodes)
				e.appendChild(c.cloneNode(true));
		return e;
	}
	get id() { return this.getAttribute('id') ?? ''; }
	set id(v) { this.setAttribute('id', v); }
	get className() { return this.getAttribute('class') ?? ''; }
	set className(v) { this.setAttribute('class', v); }
	get lang() { return this.getAttribute('lang') ?? ''; }
	set lang(v) { this.setAttribute('lang', v); }
}

class HTMLElement extends Element {
}

class HTMLInputElement extends HTMLElement {
	get value() { return this.getAttribute('value') ?? (this.getAttribute('type') === 'checkbox' ? 'on' : ''); }
	set value(v) { this.setAttribute('value', v); }
}

class HTMLOptionElement extends HTMLElement {
	get value() { return this.getAttribute('value') ?? this.textContent.trim().replace(/[ \t\n\f\r]+/g, ' '); }
	set value(v) { this.setAttribute('value', v); }
}

class Document {
	constructor() { this.documentElement = this.createElement('html'); this.body = this.createElement('body'); this.documentElement.appendChild(this.body); }
	createElement(t) {
		return new ({input: HTMLInputElement, option: HTMLOptionElement}[t] ?? HTMLElement)(t);
	}
	createTextNode(t) { return new Text(t); }
	getElementById(i) { return this.documentElement.walk(e => e.id === i, [])[0] ?? null; }
}

/* From and to [tag, attributes, children] with strings for text. */
function make(doc, t) {
	if (typeof t === 'string')
		return doc.createTextNode(t);
	const e = doc.createElement(t[0]);
	for (const k of Object.keys(t[1]))
		e.setAttribute(k, t[1][k]);
	for (const c of t[2])
		e.appendChild(make(doc, c));
	return e;
}

function dump(n) {
	if (n instanceof Text)
		return n.data;
	return [n.localName, Object.fromEntries(n.attrs), n.childNodes.map(dump)];
}

module.exports = {Node, Text, Element, HTMLElement, HTMLInputElement, HTMLOptionElement, Document, make, dump};
