import { createRequire } from 'node:module'
import { clone, deepFreeze, eq, fc, json, jsonVal, ok, outcome, show, text } from '../lib/kit.mjs'
import { accepts, makeBuilder, objectsOf, schemaAst, spoil, valueOf, VENDORS } from '../lib/schemas.mjs'

const Ajv = createRequire('/opt/veriftools/node/node_modules/')('ajv')
const withValue = a => fc.record({ a: fc.constant(a), v: valueOf(a), p: fc.array(fc.nat({ max: 30 }), { minLength: 1, maxLength: 4 }) })

// arbitrary JSON schemas for strictness: every place an object can hide, boolean schemas, other keywords, odd property names
const NAMES = ['a', 'b', 'type', 'properties', 'items', 'anyOf', 'additionalProperties', '$ref', 'x-y']
const raw = () => fc.letrec(tie => ({
  s: fc.oneof({ maxDepth: 4, depthIdentifier: 'r' },
    fc.constantFrom({ type: 'string' }, { type: 'integer', minimum: 0 }, true, { const: { type: 'object' } }, { enum: [{ type: 'object' }, 1] }, { $ref: '#/definitions/a' }, {}),
    tie('obj'),
    tie('obj'),
    tie('s').map(items => ({ type: 'array', items, minItems: 1 })),
    fc.array(tie('s'), { minLength: 1, maxLength: 2 }).map(items => ({ type: 'array', items })),
    fc.array(fc.oneof(tie('s'), fc.boolean()), { minLength: 1, maxLength: 3 }).map(items => ({ type: 'array', items })),
    fc.tuple(fc.constantFrom('anyOf', 'oneOf'), fc.array(tie('s'), { minLength: 1, maxLength: 3 })).map(([k, c]) => ({ [k]: c, description: 'one of these' })),
  ),
  obj: fc.record({
    props: fc.option(fc.uniqueArray(fc.tuple(fc.constantFrom(...NAMES), tie('s')), { selector: x => x[0], maxLength: 3 }), { nil: null, freq: 8 }),
    req: fc.option(fc.constantFrom([], ['a'], ['type', 'b']), { nil: undefined }),
    open: fc.constantFrom(undefined, true, false, { type: 'string' }),
    desc: fc.option(text(2), { nil: undefined }),
    either: fc.constantFrom(undefined, undefined, undefined, 'anyOf', 'oneOf'),
    type: fc.constantFrom('object', 'object', 'object', 'nullable', 'null first'),
    defs: fc.option(fc.tuple(fc.constantFrom('$defs', 'definitions'), tie('s')), { nil: null, freq: 3 }),
  }).map(o => ({
    type: o.type === 'nullable' ? ['object', 'null'] : o.type === 'null first' ? ['null', 'object'] : 'object',
    ...(o.props ? { properties: Object.fromEntries(o.props) } : {}),
    ...(o.req ? { required: o.req } : {}), ...(o.open !== undefined ? { additionalProperties: o.open } : {}),
    ...(o.desc !== undefined ? { description: o.desc, title: 'T' } : {}), ...(o.defs ? { [o.defs[0]]: { a: o.defs[1] } } : {}),
    ...(o.either && o.props?.length ? { [o.either]: [{ required: [o.props[0][0]] }, { required: ['b'] }] } : {}),
  })),
})).obj
// the same schema with the closing keyword taken off every object
const opened = (s, root = true) => {
  if (s === null || typeof s !== 'object') return s
  const o = { ...s }
  if (root || s.type === 'object' || (Array.isArray(s.type) && s.type.includes('object'))) delete o.additionalProperties
  for (const k of ['properties', '$defs', 'definitions']) if (o[k]) o[k] = Object.fromEntries(Object.entries(o[k]).map(([n, v]) => [n, opened(v, false)]))
  for (const k of ['anyOf', 'oneOf', 'items']) if (o[k] !== undefined) o[k] = Array.isArray(o[k]) ? o[k].map(x => opened(x, false)) : opened(o[k], false)
  return o
}

// models write fields in the order in which they are declared
const orders = s => objectsOf(s).map(([path, o]) => [path, Object.keys(o.properties ?? {})])

export default ({ lib }) => {
  const X = lib.xsschema
  const B = makeBuilder(lib)
  return {
    rule: 'A case is a generated schema description built in one of nine ways (zod 4, zod mini, zod 3, valibot, effect, sury, arktype, bare Standard Schema, asynchronous Standard Schema) with a fitting value and a spoilt one; or an arbitrary JSON schema to be made strict; or a validator with any outcome. Non-trivial: the spoilt value really does not fit / the schema has a nested object / always. Oracle: an independent JSON Schema validator (ajv) over the converted schema, an independent acceptance test, a recursive strictness model.',
    assumptions: ['objects combined with allOf are not closed (closing the parts would contradict each other)', 'schemas with transforms or defaults are converted for their input side'],
    subs: [
      {
        name: 'convert', runs: 1800,
        arb: () => fc.record({ vendor: fc.constantFrom(...VENDORS), share: fc.boolean(), c: schemaAst().chain(withValue) }),
        check: async ({ vendor, share, c: { a, v, p } }, t) => {
          t.cls(vendor)
          const s = B(vendor, a, share)
          const j = await X.toJsonSchema(s)
          const check = new Ajv({ strict: false }).compile(j)
          ok(check(v), () => `${vendor}: the JSON schema rejects ${show(v)} which the schema accepts: ${show(j)}`)
          const bad = spoil(a, v, p)
          const spoilt = !accepts(a, bad)
          t.nontrivial(spoilt)
          if (spoilt) ok(!check(json(bad)), () => `${vendor}: the JSON schema accepts ${show(bad)} which the schema rejects: ${show(j)}`)
          eq(await X.toJsonSchema(s), j, `${vendor}: a second conversion`)
          if (j.properties && vendor !== 'arktype') eq(Object.keys(j.properties), a.f.map(f => f.key), `${vendor}: order of the fields`)
          const good = await outcome(X.validate(s, v))
          ok(good.ok, () => `${vendor}: validate rejected ${show(v)}: ${show(good.error)}`)
          eq(json(good.value), json(v), `${vendor}: validated value`)
          if (spoilt) {
            const r = await outcome(X.validate(s, bad))
            ok(!r.ok, () => `${vendor}: validate accepted ${show(bad)}: ${show(r.value)}`)
            ok(r.error instanceof Error && Array.isArray(JSON.parse(r.error.message)), () => `${vendor}: the error does not carry the issues: ${show(r.error)}`)
          }
        },
      },
      {
        name: 'input-side', runs: 400,
        arb: () => fc.record({ how: fc.constantFrom('zod', 'zod3', 'valibot'), absent: fc.boolean(), s: text(2) }),
        check: async ({ how, absent, s }, t) => {
          t.nontrivial(); t.cls(how)
          const z = lib.zod.z ?? lib.zod
          const z3 = lib.zod3.z
          const v = lib.valibot
          const schema = how === 'zod' ? z.object({ a: z.string().default('d'), b: z.number() }) : how === 'zod3' ? z3.object({ a: z3.string().default('d'), b: z3.number() }) : v.object({ a: v.optional(v.string(), 'd'), b: v.number() })
          const std = schema
          const j = await X.toJsonSchema(std)
          const check = new Ajv({ strict: false }).compile(j)
          ok(check(absent ? { b: 1 } : { a: s, b: 1 }), () => `${how}: a value with a default is required: ${show(j)}`)
          ok(!check({ a: s }), () => `${how}: a required value is not required: ${show(j)}`)
          eq(await X.validate(std, absent ? { b: 1 } : { a: s, b: 1 }), { a: absent ? 'd' : s, b: 1 }, `${how}: validated value`)
        },
      },
      {
        // a schema that brings its own JSON schema is taken at its word
        name: 'own-json', runs: 800,
        arb: () => fc.record({ s: raw(), more: jsonVal(2), values: fc.uniqueArray(fc.oneof(text(2), fc.integer(), fc.constantFrom(null, true, false, '')), { maxLength: 6 }), long: text(4) }),
        check: async ({ s, more, values, long }, t) => {
          t.nontrivial()
          const own = { ...s, 'properties': { ...s.properties, choice: { enum: values, default: values[0] ?? null, description: long, examples: values, pattern: '^a$', format: 'email' } }, 'x-more': more }
          const asked = []
          const schema = { '~standard': { version: 1, vendor: 'mine', validate: value => ({ value }), jsonSchema: { input: (o) => { asked.push(o); return clone(own) }, output: () => ({ not: {} }) } } }
          const j = await X.toJsonSchema(schema)
          eq(json(j), json(own), 'the JSON schema of the schema itself')
          eq(orders(j), orders(own), 'order of the fields')
          ok(asked.length > 0 && asked.every(o => o.target === 'draft-07'), () => `the schema is asked for ${show(asked)}`)
        },
      },
      {
        name: 'strict', runs: 6000,
        arb: () => fc.record({ s: raw(), root: fc.constantFrom('object', 'object', 'object', 'ref', 'union', 'untyped') }),
        check: async ({ s: o, root }, t) => {
          const s = root === 'ref' ? { $ref: '#/definitions/A', definitions: { A: o } } : root === 'union' ? { anyOf: [o, { type: 'null' }], description: 'd' } : root === 'untyped' ? { properties: { o } } : o
          const before = clone(s)
          const input = deepFreeze(clone(s))
          const out = X.strictJsonSchema(X.jsonSchema(input))
          const objs = objectsOf(s)
          t.nontrivial(objs.length > 1)
          if (root === 'ref' || root === 'union') ok(!('additionalProperties' in out), () => `a root that only refers or combines would reject everything: ${show(out)}`)
          t.cls(root, `objects=${Math.min(5, objs.length)}`)
          eq(input, before, 'the given schema must stay as it is')
          for (const [path, o] of [...(root === 'untyped' ? [['#', out]] : []), ...objectsOf(out)]) ok(o.additionalProperties === false, () => `the object at ${path} is still open: ${show(out)}`)
          eq(opened(json(out)), opened(json(s)), 'everything but the closing keyword')
          eq(objectsOf(out).length, objs.length, 'objects')
          eq(orders(json(out)), orders(s), 'order of the fields')
          eq(json(X.strictJsonSchema(out)), json(out), 'strictness applied twice')
        },
      },
      {
        name: 'validate', runs: 1500,
        arb: () => fc.record({ value: fc.oneof(jsonVal(2), fc.constantFrom(undefined, 0, '', false, null)), input: jsonVal(1), async: fc.boolean(), issues: fc.option(fc.array(fc.record({ message: text(3), path: fc.constantFrom(undefined, ['a', 0]) }), { maxLength: 3 }), { nil: null }), how: fc.constantFrom('issues', 'throw') }),
        check: async ({ value, input, async, issues, how }, t) => {
          t.nontrivial(issues !== null || value !== input)
          const got = []
          const boom = new Error('BOOM')
          const schema = { '~standard': { version: 1, vendor: 'mine', validate: (x) => {
            got.push(x)
            if (issues && how === 'throw') { if (async) return Promise.reject(boom); throw boom }
            const r = issues ? { issues } : { value }
            return async ? Promise.resolve(r) : r
          } } }
          const p = X.validate(schema, input)
          ok(p instanceof Promise, 'validate returns a promise')
          const r = await outcome(p)
          eq(got, [input], 'the validator is asked once, with the input')
          if (!issues) { ok(r.ok, () => `failed: ${show(r.error)}`); eq(r.value, value, 'the validator\'s value'); return }
          ok(!r.ok, () => `accepted: ${show(r.value)}`)
          if (how === 'throw') { ok(r.error === boom, 'the validator\'s own error'); return }
          eq(JSON.parse(r.error.message), json(issues), 'issues in the message')
        },
      },
      {
        name: 'unsupported', runs: 60,
        arb: () => fc.record({ vendor: fc.constantFrom('joi', 'yup', '', 'ZOD', 'constructor') }),
        check: async ({ vendor }, t) => {
          t.nontrivial()
          const r = await outcome(X.toJsonSchema({ '~standard': { version: 1, vendor, validate: value => ({ value }) } }))
          ok(!r.ok && r.error instanceof Error && r.error.message.includes(`"${vendor}"`), () => `expected the unsupported vendor to be named: ${show(r.ok ? r.value : r.error)}`)
        },
      },
    ],
  }
}
