'use strict';
// Stand-in for the parts of "validator" used, following its manual.
function str(s) { if (typeof s !== 'string') throw new TypeError('Expected a string but received a ' + typeof s); return s; }
const V = {
	isDecimal(s, o) {
		str(s);
		if (o === undefined || o.locale !== 'en-US') throw new Error('STAND-IN: locale ' + JSON.stringify(o));
		return !['', '-', '+'].includes(s) && /^[-+]?([0-9]+)?(\.[0-9]{1,})?$/.test(s);
	},
	isDate(s, o) {
		str(s);
		if (o === undefined || o.format !== 'YYYY-MM-DD' || o.strictMode !== true) throw new Error('STAND-IN: format');
		const m = /^(\d{4})-(\d{2})-(\d{2})$/.exec(s);
		if (m === null) return false;
		const d = new Date(`${m[1]}-${m[2]}-${m[3]}T00:00:00.000Z`);
		return !isNaN(d) && d.getUTCDate() === Number(m[3]);
	},
	toDate(s) { str(s); const t = Date.parse(s); return isNaN(t) ? null : new Date(t); },
	isEmail(s) { str(s); return /^[A-Za-z0-9._+-]+@([A-Za-z0-9-]+\.)+[A-Za-z]{2,}$/.test(s) && s.length < 255; },
	normalizeEmail(s) { str(s); return V.isEmail(s) ? s.toLowerCase() : false; },
};
module.exports = V;
