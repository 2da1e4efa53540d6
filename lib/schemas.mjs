// Generated schemas: one abstract description, built in every supported schema library,
// with generators of accepted and rejected values and an independent acceptance test.
import { fc, text } from './kit.mjs'

const KEYS = ['a', 'b', 'cityName', 'snake_key', 'type', 'items', 'properties', 'anyOf', 'required', 'additionalProperties', '$ref', '$defs', 'definitions', 'x y', 'ä']
export const schemaAst = (opts = {}) => fc.letrec(tie => ({
  leaf: fc.oneof(
    { weight: 3, arbitrary: fc.constant({ k: 'str' }) },
    { weight: 2, arbitrary: fc.constant({ k: 'num' }) },
    { weight: 2, arbitrary: fc.constant({ k: 'bool' }) },
    { weight: 1, arbitrary: fc.constant({ k: 'enum', vs: ['red', 'green', ''] }) },
    { weight: 1, arbitrary: fc.constant({ k: 'null' }) },
  ),
  obj: fc.uniqueArray(fc.record({ key: fc.constantFrom(...KEYS), opt: fc.boolean(), s: tie('any') }), { selector: f => f.key, minLength: opts.minKeys ?? 1, maxLength: 4 }).chain(f => fc.option(fc.tuple(fc.nat(), fc.nat()), { nil: undefined, freq: 3 }).map((twice) => {
    // sometimes one part is used in two places
    if (twice && f.length > 1) f = f.map((x, i) => i === twice[0] % f.length ? { ...x, s: f[twice[1] % f.length].s } : x)
    return { k: 'obj', f }
  })),
  any: fc.oneof({ maxDepth: opts.depth ?? 3, depthIdentifier: 's' },
    { weight: 4, arbitrary: tie('leaf') },
    { weight: 3, arbitrary: tie('obj') },
    { weight: 2, arbitrary: tie('any').map(s => ({ k: 'arr', s })) },
    { weight: 1, arbitrary: fc.tuple(tie('leaf'), tie('obj')).map(c => ({ k: 'union', c })) },
    { weight: 1, arbitrary: fc.oneof(tie('leaf').filter(s => s.k !== 'null'), tie('obj')).map(s => ({ k: 'nullable', s })) },
  ),
}))[opts.root ?? 'obj']

export const accepts = (a, v) => {
  switch (a.k) {
    case 'str': return typeof v === 'string'
    case 'num': return typeof v === 'number'
    case 'bool': return typeof v === 'boolean'
    case 'null': return v === null
    case 'enum': return a.vs.includes(v)
    case 'arr': return Array.isArray(v) && v.every(x => accepts(a.s, x))
    case 'union': return a.c.some(s => accepts(s, v))
    case 'nullable': return v === null || accepts(a.s, v)
    case 'obj': return v !== null && typeof v === 'object' && !Array.isArray(v) && a.f.every(f => Object.hasOwn(v, f.key) ? accepts(f.s, v[f.key]) : f.opt)
  }
}
export const valueOf = (a) => {
  switch (a.k) {
    case 'str': return text(3)
    case 'num': return fc.oneof(fc.integer({ min: -1000, max: 1000 }), fc.constantFrom(0, 0.5, -1.25, 1e6))
    case 'bool': return fc.boolean()
    case 'null': return fc.constant(null)
    case 'enum': return fc.constantFrom(...a.vs)
    case 'arr': return fc.array(valueOf(a.s), { maxLength: 3 })
    case 'union': return fc.oneof(...a.c.map(valueOf))
    case 'nullable': return fc.oneof({ weight: 1, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: valueOf(a.s) })
    case 'obj': return fc.record(Object.fromEntries(a.f.map(f => [f.key, valueOf(f.s)])), { requiredKeys: a.f.filter(f => !f.opt).map(f => f.key), noNullPrototype: true })
  }
}
// a value that is wrong at one generated place (null when the schema accepts whatever was made)
const junk = [1, 'red herring', true, null, [], {}, [[]], { zz: 1 }, -0.5]
export const spoil = (a, v, picks, depth = 0) => {
  const pick = picks[depth % picks.length]
  if (a.k === 'union') return junk.map((_, i) => junk[(pick + i) % junk.length]).find(j => !accepts(a, j) && !(j && typeof j === 'object')) // objects may fit loosely
  if (a.k === 'nullable') return v === null ? spoil(a.s, undefined, picks, depth) : spoil(a.s, v, picks, depth)
  if (a.k === 'obj' && a.f.length > 0 && v && typeof v === 'object' && !Array.isArray(v) && pick % 4 !== 0) {
    const f = a.f[pick % a.f.length]
    if (!f.opt && pick % 3 === 0) { const { [f.key]: _gone, ...rest } = v; return rest }
    const bad = spoil(f.s, v[f.key], picks, depth + 1)
    return { ...v, [f.key]: bad }
  }
  if (a.k === 'arr' && Array.isArray(v) && v.length > 0 && pick % 4 !== 0) return v.map((x, i) => i === pick % v.length ? spoil(a.s, x, picks, depth + 1) : x)
  return junk.map((_, i) => junk[(pick + i) % junk.length]).find(j => !accepts(a, j) && !(a.k === 'obj' && j && typeof j === 'object') && !(a.k === 'arr' && Array.isArray(j))) // libraries differ in taking arrays for objects, in an array too
}

// the JSON schema the description means
const pointer = key => encodeURIComponent(key.replaceAll('~', '~0').replaceAll('/', '~1'))
export const toJson = (a, shared, path = '#') => {
  if (shared) {
    // a part that occurred before is referred to by its place
    const id = JSON.stringify(a)
    if (shared.has(id)) return { $ref: shared.get(id) }
    shared.set(id, path)
  }
  switch (a.k) {
    case 'str': return { type: 'string' }
    case 'num': return { type: 'number' }
    case 'bool': return { type: 'boolean' }
    case 'null': return { type: 'null' }
    case 'enum': return { enum: [...a.vs] }
    case 'arr': return { type: 'array', items: toJson(a.s, shared, `${path}/items`) }
    case 'union': return { anyOf: a.c.map((c, i) => toJson(c, shared, `${path}/anyOf/${i}`)) }
    case 'nullable': return { anyOf: [toJson(a.s, shared, `${path}/anyOf/0`), { type: 'null' }] }
    case 'obj': return { type: 'object', properties: Object.fromEntries(a.f.map(f => [f.key, toJson(f.s, shared, `${path}/properties/${pointer(f.key)}`)])), required: a.f.filter(f => !f.opt).map(f => f.key) }
  }
}

const rec = (lib) => {
  const z = lib.zod.z ?? lib.zod
  const m = lib.zodMini.z ?? lib.zodMini
  const z3 = lib.zod3.z
  const { valibot: v, effectSchema: E, sury: S, arktype: A } = lib
  const zodLike = (q, optional, nullable) => ({ str: () => q.string(), num: () => q.number(), bool: () => q.boolean(), null: () => q.null(), enum: vs => q.enum(vs), arr: s => q.array(s), union: c => q.union(c), nullable, obj: f => q.object(Object.fromEntries(f.map(({ key, opt, s }) => [key, opt ? optional(s) : s]))) })
  return {
    zod: zodLike(z, s => z.optional(s), s => z.nullable(s)),
    zodMini: zodLike(m, s => m.optional(s), s => m.nullable(s)),
    zod3: zodLike(z3, s => s.optional(), s => s.nullable()),
    valibot: { str: () => v.string(), num: () => v.number(), bool: () => v.boolean(), null: () => v.null(), enum: vs => v.picklist(vs), arr: s => v.array(s), union: c => v.union(c), nullable: s => v.nullable(s), obj: f => v.object(Object.fromEntries(f.map(({ key, opt, s }) => [key, opt ? v.optional(s) : s]))) },
    effect: { str: () => E.String, num: () => E.Number, bool: () => E.Boolean, null: () => E.Null, enum: vs => E.Literal(...vs), arr: s => E.Array(s), union: c => E.Union(...c), nullable: s => E.NullOr(s), obj: f => E.Struct(Object.fromEntries(f.map(({ key, opt, s }) => [key, opt ? E.optionalWith(s, { exact: true }) : s]))) },
    sury: { str: () => S.string, num: () => S.number, bool: () => S.boolean, null: () => S.schema(null), enum: vs => S.union(vs), arr: s => S.array(s), union: c => S.union(c), nullable: s => S.union([s, null]), obj: f => S.schema(Object.fromEntries(f.map(({ key, opt, s }) => [key, opt ? S.optional(s) : s]))) },
    arktype: { str: () => A.type('string'), num: () => A.type('number'), bool: () => A.type('boolean'), null: () => A.type('null'), enum: vs => A.type.enumerated(...vs), arr: s => s.array(), union: c => c[0].or(c[1]), nullable: s => s.or('null'), obj: f => A.type(Object.fromEntries(f.map(({ key, opt, s }) => [opt ? `${key}?` : key, s]))) },
  }
}
export const VENDORS = ['zod', 'zodMini', 'zod3', 'valibot', 'effect', 'sury', 'arktype', 'standard', 'promised']
// `standard`: a bare Standard Schema implementation (with its own JSON schema), `promised`: the same, validating asynchronously
export const makeBuilder = (lib) => {
  const ops = rec(lib)
  const go = (o, a, shared) => {
    const id = shared && JSON.stringify(a)
    if (shared?.has(id)) return shared.get(id)
    const s = make(o, a, shared)
    shared?.set(id, s)
    return s
  }
  const make = (o, a, shared) => {
    switch (a.k) {
      case 'str': case 'num': case 'bool': case 'null': return o[a.k]()
      case 'enum': return o.enum(a.vs)
      case 'arr': return o.arr(go(o, a.s, shared))
      case 'nullable': return o.nullable(go(o, a.s, shared))
      case 'union': return o.union(a.c.map(s => go(o, s, shared)))
      case 'obj': return o.obj(a.f.map(f => ({ ...f, s: go(o, f.s, shared) })))
    }
  }
  // share: equal parts of the description are one and the same schema object
  return (vendor, a, share = false) => {
    if (vendor === 'standard' || vendor === 'promised') {
      const check = value => accepts(a, value) ? { value } : { issues: [{ message: 'does not fit', path: ['x'] }] }
      return { '~standard': { version: 1, vendor: 'mine', validate: vendor === 'promised' ? async value => check(value) : check, jsonSchema: { input: ({ target }) => target === 'draft-07' ? toJson(a, share ? new Map() : undefined) : { not: {} }, output: () => ({ not: {} }) } } }
    }
    const s = go(ops[vendor], a, share ? new Map() : undefined)
    return vendor === 'effect' ? lib.effectSchema.standardSchemaV1(s) : s
  }
}
// objects of a JSON schema at every depth, with the path to each
export const objectsOf = (s, path = '#') => {
  if (s === null || typeof s !== 'object') return []
  const out = []
  const isObj = s.type === 'object' || (Array.isArray(s.type) && s.type.includes('object'))
  if (isObj) out.push([path, s])
  for (const k of ['properties', '$defs', 'definitions']) for (const [n, v] of Object.entries(s[k] ?? {})) out.push(...objectsOf(v, `${path}/${k}/${n}`))
  for (const k of ['anyOf', 'oneOf', 'items']) for (const [i, v] of Object.entries(Array.isArray(s[k]) ? s[k] : s[k] ? [s[k]] : [])) out.push(...objectsOf(v, `${path}/${k}/${i}`))
  return out
}
