'use strict';
// Stand-in for "bcrypt": deterministic, never equal to the password; the
// costs asked for are logged in globalThis.bcryptCosts.
const M = (1n << 64n) - 1n;
function fnv(b, h) {
	for (const x of b) h = ((h ^ BigInt(x)) * 1099511628211n) & M;
	return h.toString(16).padStart(16, '0');
}
function h(p) { const b = Buffer.from(p); return '$2b$10$' + fnv(b, 14695981039346656037n) + fnv(b, 99n); }
module.exports = {
	hashSync(p, cost) {
		if (typeof p !== 'string' || typeof cost !== 'number') throw new Error('data and salt arguments required');
		(globalThis.bcryptCosts ||= new Set()).add(cost);
		return h(p);
	},
	compareSync(p, hash) {
		if (typeof p !== 'string' || typeof hash !== 'string') throw new Error('data and hash arguments required');
		return hash === h(p);
	},
};
