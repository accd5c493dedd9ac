'use strict';
// Stand-in for "better-sqlite3" over node:sqlite, following its manual.
const { DatabaseSync } = require('node:sqlite');
const CODES = { 19: 'SQLITE_CONSTRAINT', 275: 'SQLITE_CONSTRAINT_CHECK', 787: 'SQLITE_CONSTRAINT_FOREIGNKEY',
	1299: 'SQLITE_CONSTRAINT_NOTNULL', 1555: 'SQLITE_CONSTRAINT_PRIMARYKEY', 1811: 'SQLITE_CONSTRAINT_TRIGGER',
	2067: 'SQLITE_CONSTRAINT_UNIQUE', 2579: 'SQLITE_CONSTRAINT_ROWID', 3091: 'SQLITE_CONSTRAINT_DATATYPE' };
class SqliteError extends Error {
	constructor(m, code) { super(m); this.name = 'SqliteError'; this.code = code; }
}
function wrap(f) {
	try { return f(); } catch (e) {
		if (e && e.code === 'ERR_SQLITE_ERROR') throw new SqliteError(e.message, CODES[e.errcode] || 'SQLITE_ERROR_' + e.errcode);
		throw e;
	}
}
function args(db, a, n) {
	if (a.length === 1 && Array.isArray(a[0])) a = a[0];
	if (a.length < n) throw new RangeError('Too few parameter values were provided');
	if (a.length > n) throw new RangeError('Too many parameter values were provided');
	return a.map((x) => {
		if (x === null || typeof x === 'number' || typeof x === 'string' || Buffer.isBuffer(x)) return x;
		if (typeof x === 'bigint') {
			if (x < -(2n ** 63n) || x >= 2n ** 63n) throw new RangeError('The bound string, buffer, or bigint is too big');
			return x;
		}
		throw new TypeError('SQLite3 can only bind numbers, strings, bigints, buffers, and null');
	});
}
// Parameters: question marks outside of quotes.
function count(sql) { return sql.replace(/'(?:[^']|'')*'/g, '').split('?').length - 1; }
class Statement {
	#s; #db; #raw = false; #n; #rd;
	constructor(db, sql) {
		this.#db = db;
		this.#s = wrap(() => db.real.prepare(sql));
		if (db.safe) this.#s.setReadBigInts(true);
		this.#n = count(sql);
		this.#rd = /^\s*(SELECT|PRAGMA)/i.test(sql);
	}
	raw(t = true) {
		if (!this.#rd) throw new TypeError('The raw() method is only for statements that return data');
		this.#raw = !!t; this.#s.setReturnArrays(!!t); return this;
	}
	#fix(r) {
		const f = (v) => v instanceof Uint8Array && !Buffer.isBuffer(v) ? Buffer.from(v) : v;
		if (r === undefined || r === null) return r;
		if (Array.isArray(r)) return r.map(f);
		const o = {};
		for (const k of Object.keys(r)) o[k] = f(r[k]);
		return o;
	}
	run(...a) {
		if (this.#rd) throw new TypeError('This statement returns data. Use get(), all(), or iterate() instead');
		const p = args(this.#db, a, this.#n);
		const r = wrap(() => this.#s.run(...p));
		return { changes: Number(r.changes), lastInsertRowid: this.#db.safe ? BigInt(r.lastInsertRowid) : Number(r.lastInsertRowid) };
	}
	get(...a) {
		if (!this.#rd) throw new TypeError('This statement does not return data. Use run() instead');
		const p = args(this.#db, a, this.#n);
		const r = wrap(() => this.#s.get(...p));
		return r === undefined || r === null ? undefined : this.#fix(r);
	}
	all(...a) {
		if (!this.#rd) throw new TypeError('This statement does not return data. Use run() instead');
		const p = args(this.#db, a, this.#n);
		return wrap(() => this.#s.all(...p)).map((r) => this.#fix(r));
	}
	* iterate(...a) {
		if (!this.#rd) throw new TypeError('This statement does not return data. Use run() instead');
		const p = args(this.#db, a, this.#n);
		for (const r of wrap(() => this.#s.all(...p))) yield this.#fix(r);
	}
}
class Database {
	constructor(name) { this.safe = false; this.real = wrap(() => new DatabaseSync(name)); }
	defaultSafeIntegers(t = true) { this.safe = !!t; return this; }
	prepare(sql) { return new Statement(this, sql); }
	exec(sql) { wrap(() => this.real.exec(sql)); return this; }
	close() { this.real.close(); return this; }
}
Database.SqliteError = SqliteError;
module.exports = Database;
