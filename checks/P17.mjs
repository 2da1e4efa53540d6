import { createRequire } from 'node:module'
import { collect, cutsArb, eq, fc, json, jsonReply, jsonVal, makeServer, ok, outcome, show, sized, sseReply, sseText, text } from '../lib/kit.mjs'
import { buildOptions, FALLBACK, newSeen, replyJSON, scenario } from '../lib/loop.mjs'
import { accepts, makeBuilder, objectsOf, schemaAst, spoil, valueOf, VENDORS } from '../lib/schemas.mjs'

const Ajv = createRequire('/opt/veriftools/node/node_modules/')('ajv')
const reply = (content, more = {}) => jsonReply({ choices: [{ index: 0, finish_reason: 'stop', message: { role: 'assistant', content, ...more } }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } })
const stream = (content, cuts) => sseReply(sseText([{ choices: [{ index: 0, delta: { content } }] }, { choices: [{ index: 0, delta: {}, finish_reason: 'stop' }] }]), cuts)
const base = { baseURL: 'https://h.example/v1', apiKey: 'k', model: 'm', messages: [{ role: 'user', content: 'q' }] }
const settings = () => fc.record({ out: fc.constantFrom('object', 'array', undefined), name: fc.option(fc.constantFrom('thing', 'n_2', 'a.b c/d', '', 'größe', 'n'.repeat(80)), { nil: undefined }), desc: fc.option(text(2), { nil: undefined }), strict: fc.constantFrom(undefined, undefined, true, false) })
const given = s => ({ ...(s.out ? { output: s.out } : {}), ...(s.name !== undefined ? { schemaName: s.name } : {}), ...(s.desc !== undefined ? { schemaDescription: s.desc } : {}), ...(s.strict !== undefined ? { strict: s.strict } : {}) })

export default ({ lib }) => {
  const X = lib.xsai
  const B = makeBuilder(lib)
  // the request announces the schema under its settings; the schema means what the description means
  const checkRequest = (q, s, label, { fits = [], spoilt = [] } = {}) => {
    const { response_format: rf, ...rest } = q.json
    eq(rest, { messages: base.messages, model: 'm', stream: rest.stream }, `${label}: nothing of the structured-output settings leaks into the body`)
    eq({ ...rf, json_schema: { ...rf.json_schema, schema: 0 } }, { type: 'json_schema', json_schema: { name: s.name ?? 'json_schema', strict: s.strict ?? true, schema: 0, ...(s.desc !== undefined ? { description: s.desc } : {}) } }, `${label}: response format`)
    const schema = rf.json_schema.schema
    const w = v => s.out === 'array' ? { elements: v } : v
    const check = new Ajv({ strict: false }).compile(schema)
    for (const v of fits) ok(check(w(v)), () => `${label}: the announced schema rejects ${show(w(v))}: ${show(schema)}`)
    for (const v of spoilt) ok(!check(w(v)), () => `${label}: the announced schema accepts ${show(w(v))}: ${show(schema)}`)
    if (s.out === 'array') { ok(!check({}), () => `${label}: elements must be required: ${show(schema)}`); ok(!check({ elements: {} }), () => `${label}: elements must be a list`) }
    if (s.strict !== false) for (const [path, o] of objectsOf(schema)) ok(o.additionalProperties === false, () => `${label}: the object at ${path} is open in a strict request: ${show(schema)}`)
  }
  return {
    rule: 'A case is a structured generation: a generated schema in one of nine libraries, a reply made to fit it or spoilt at one place, object or array output, name, description and strictness; or a whole multi-step tool run that ends in structured output. Non-trivial: a fitting reply with content or a really spoilt one. Oracle: independent acceptance test, ajv over the announced schema, and plain text generation on the same script.',
    subs: [
      {
        name: 'reply', runs: 1500,
        arb: () => fc.record({ vendor: fc.constantFrom(...VENDORS), share: fc.boolean(), s: settings(), s2: settings(), indent: fc.constantFrom(0, 0, 2), c: schemaAst().chain(a => fc.record({ a: fc.constant(a), vs: sized(fc.array(valueOf(a), { minLength: 0, maxLength: 4 }), fc.array(valueOf(a), { minLength: 21, maxLength: 60 }), 80), v: valueOf(a), p: fc.array(fc.nat({ max: 30 }), { minLength: 1, maxLength: 4 }), bad: fc.boolean(), at: fc.nat() })), reasoning: fc.option(text(2).filter(x => x !== ''), { nil: undefined }) }),
        check: async ({ vendor, share, s, s2, indent, c, reasoning }, t) => {
          const { a, vs, v, p, bad, at } = c
          const list = s.out === 'array'
          const spoilt = spoil(a, v, p)
          const wrong = bad && !accepts(a, spoilt)
          const good = list ? vs : v
          const said = !wrong ? good : list ? [...vs.slice(0, at % (vs.length + 1)), spoilt, ...vs.slice(at % (vs.length + 1))] : spoilt
          const body = JSON.stringify(list ? { elements: said } : said, null, indent)
          t.cls(vendor, wrong ? 'spoilt' : 'fits', s.out ?? 'default', s.strict === false && 'loose')
          t.nontrivial(wrong || !list || vs.length > 0)
          const srv = makeServer(() => reply(body, reasoning !== undefined ? { reasoning } : {}))
          const schema = B(vendor, a, share)
          const r = await outcome(X.generateObject({ ...base, fetch: srv.fetch, schema, ...given(s) }))
          eq(srv.log.length, 1, 'one request')
          const announced = async (schema) => {
            const again = makeServer(() => reply('{"elements":[]}'))
            await outcome(X.generateObject({ ...base, fetch: again.fetch, schema, ...given(s2) }))
            return again.log[0].json.response_format
          }
          eq(await announced(schema), await announced(B(vendor, a, share)), `${vendor}: request for a schema that was used before under other settings`)
          // models write the fields in the order they are announced in (arktype has an order of its own)
          const named = srv.log[0].json.response_format.json_schema.schema
          const fields = (list ? named.properties.elements.items : named).properties
          if (fields && vendor !== 'arktype') eq(Object.keys(fields), a.f.map(f => f.key), `${vendor}: order of the fields`)
          // with strictness, a loosely typed object of the schema may be closed; fitting values have no extra keys
          checkRequest(srv.log[0], s, vendor, { fits: [good], spoilt: wrong ? [json(said)] : [] })
          if (wrong) {
            ok(!r.ok, () => `${vendor}: a reply that does not fit was returned: ${show(r.value?.object)} for ${body}`)
            ok(r.error instanceof Error && Array.isArray(JSON.parse(r.error.message)), () => `${vendor}: the error carries the issues: ${show(r.error)}`)
            return
          }
          ok(r.ok, () => `${vendor}: a fitting reply failed: ${show(r.error)} for ${body}`)
          eq(json(r.value.object), json(good), `${vendor}: object`)
          eq([r.value.text, r.value.finishReason, r.value.reasoningText, r.value.usage], [body, 'stop', reasoning, { inputTokens: 1, outputTokens: 1, totalTokens: 2 }], `${vendor}: remaining fields`)
          const srv2 = makeServer(() => stream(body, []))
          const so = await X.streamObject({ ...base, fetch: srv2.fetch, schema: B(vendor, a, share), ...given(s) })
          const els = await collect(so.elementStream ?? so.partialObjectStream)
          await outcome(so.messages)
          checkRequest(srv2.log[0], s, `${vendor} streamed`)
          eq(srv2.log[0].json.response_format, srv.log[0].json.response_format, 'both modes announce the same schema')
          ok(els.end === 'closed', () => `the stream ended ${els.end} ${show(els.error)}`)
          ok((so.elementStream !== undefined) === list && (so.partialObjectStream !== undefined) === !list, 'exactly one structured stream, by output kind')
        },
      },
      {
        name: 'transforms', runs: 700,
        arb: () => fc.record({ how: fc.constantFrom('valibot', 'zod', 'zodAsync', 'mine', 'mineAsync', 'falsy', 'nothing', 'missing'), out: fc.constantFrom('object', 'array'), vals: fc.array(text(2), { minLength: 1, maxLength: 4 }), delays: fc.array(fc.nat({ max: 5 }), { minLength: 1, maxLength: 4 }) }),
        check: async ({ how, out, vals, delays }, t) => {
          t.nontrivial(); t.cls(how)
          const v = lib.valibot
          const z = lib.zod.z ?? lib.zod
          let n = 0
          const sleep = ms => new Promise(r => setTimeout(r, ms))
          const std = validate => ({ '~standard': { version: 1, vendor: 'mine', validate, jsonSchema: { input: () => ({ type: 'object', properties: { a: { type: 'string' } }, required: ['a'] }) } } })
          const schema = {
            valibot: () => std(x => v.object({ a: v.pipe(v.string(), v.transform(s => `<${s}>`)) })['~standard'].validate(x)),
            zod: () => z.object({ a: z.string().overwrite(s => `<${s}>`) }),
            zodAsync: () => std(x => z.object({ a: z.string().transform(async s => `<${s}>`) })['~standard'].validate(x)),
            mine: () => std(x => ({ value: { a: `<${x.a}>` } })),
            mineAsync: () => std(async (x) => { await sleep(delays[n++ % delays.length]); return { value: { a: `<${x.a}>` } } }),
            falsy: () => std(() => ({ value: 0 })),
            nothing: () => std(() => ({ value: null })),
            missing: () => std(() => ({ value: undefined })),
          }[how]()
          const said = vals.map(a => ({ a }))
          const srv = makeServer(() => reply(JSON.stringify(out === 'array' ? { elements: said } : said[0])))
          const r = await outcome(X.generateObject({ ...base, fetch: srv.fetch, schema, output: out }))
          ok(r.ok, () => `${how} failed: ${show(r.error)}`)
          const want = vals.map(a => how === 'falsy' ? 0 : how === 'nothing' ? null : how === 'missing' ? undefined : { a: `<${a}>` })
          eq(r.value.object, out === 'array' ? want : want[0], `${how}: the schema's own output`)
        },
      },
      {
        // a schema that lets everything through: the reply's values come back one for one, empty and null ones included
        name: 'values', runs: 700,
        arb: () => fc.record({ out: fc.constantFrom('object', 'array'), vals: sized(fc.array(fc.oneof({ weight: 2, arbitrary: jsonVal(2) }, { weight: 1, arbitrary: fc.constantFrom(null, 0, '', false, [], {}) }), { maxLength: 5 }), fc.array(fc.oneof(jsonVal(1), fc.constantFrom(null, 0, '', false)), { minLength: 21, maxLength: 400 }), 20), v: jsonVal(2), async: fc.boolean() }),
        check: async ({ out, vals, v, async }, t) => {
          const schema = { '~standard': { version: 1, vendor: 'mine', validate: value => async ? Promise.resolve({ value }) : { value }, jsonSchema: { input: () => ({}) } } }
          const want = out === 'array' ? vals : v
          t.nontrivial(out === 'object' || vals.length > 1); t.cls(out)
          const srv = makeServer(() => reply(JSON.stringify(out === 'array' ? { elements: vals } : v)))
          const r = await outcome(X.generateObject({ ...base, fetch: srv.fetch, schema, output: out }))
          ok(r.ok, () => `failed: ${show(r.error)}`)
          eq(r.value.object, json(want), `${out} of plain values`)
        },
      },
      {
        // shared and recursive definitions stay reachable in both output kinds
        name: 'recursive', runs: 300,
        arb: () => fc.record({ how: fc.constantFrom('zod', 'valibot', 'zodShared', 'effect'), out: fc.constantFrom('object', 'array'), depth: fc.nat({ max: 4 }), bad: fc.nat({ max: 4 }), strict: fc.constantFrom(undefined, false) }),
        check: async ({ how, out, depth, bad, strict }, t) => {
          t.nontrivial(); t.cls(how, out)
          const v = lib.valibot
          const z = lib.zod.z ?? lib.zod
          const E = lib.effectSchema
          const schema = {
            zod: () => { const N = z.object({ v: z.string(), get next() { return z.array(N) } }); return N },
            zodShared: () => { const L = z.object({ v: z.string(), next: z.array(z.lazy(() => L)) }); return z.object({ v: z.string(), next: z.array(L) }) },
            valibot: () => { const N = v.object({ v: v.string(), next: v.array(v.lazy(() => N)) }); return N },
            effect: () => { const N = E.Struct({ v: E.String, next: E.Array(E.suspend(() => N)) }).annotations({ identifier: 'Node' }); return E.standardSchemaV1(N) },
          }[how]()
          const mk = (d, spoilt) => ({ v: d === spoilt ? 5 : 'x', next: d === 0 ? [] : [mk(d - 1, spoilt)] })
          const good = mk(depth, -1)
          const w = x => out === 'array' ? [x] : x
          const wrong = bad <= depth
          const srv = makeServer(() => reply(JSON.stringify(out === 'array' ? { elements: [good] } : good)))
          const r = await outcome(X.generateObject({ ...base, fetch: srv.fetch, schema, output: out, ...(strict === false ? { strict } : {}) }))
          ok(r.ok, () => `${how} failed: ${show(r.error)}`)
          eq(r.value.object, w(good), `${how}: object`)
          checkRequest(srv.log[0], { out, strict }, how, { fits: [w(good)], spoilt: wrong ? [w(mk(depth, bad))] : [] })
        },
      },
      {
        name: 'underlying', runs: 1200,
        arb: () => fc.record({ sc: scenario({ step: { parts: false } }), v: fc.constantFrom('{"a":"x"}', '{"a":""}', ' {"a":"\\u00e9"}\n'), empty: fc.constantFrom('no', 'no', 'no', 'null', 'empty') }),
        check: async ({ sc, v, empty }, t) => {
          const script = sc.script.map(s => ({ ...s, text: s.calls.length === 0 || s.text !== null ? empty === 'no' ? v : empty === 'null' ? null : '' : s.text }))
          const run = async (fn, more) => {
            const seen = newSeen()
            const srv = makeServer((_, i) => jsonReply(replyJSON(script[i] ?? { ...FALLBACK, text: v }, i)))
            return { seen, srv, r: await outcome(fn(buildOptions(sc, X, seen, { fetch: srv.fetch, ...more }))) }
          }
          const plain = await run(X.generateText, {})
          const obj = await run(X.generateObject, { schema: B('standard', { k: 'obj', f: [{ key: 'a', opt: false, s: { k: 'str' } }] }) })
          ok(plain.r.ok, () => `generateText failed: ${show(plain.r.error)}`)
          const txt = plain.r.value.text
          t.nontrivial(plain.srv.log.length >= 2)
          t.cls(`requests=${Math.min(4, plain.srv.log.length)}`, txt ? 'object' : 'no-text')
          eq(obj.srv.log.map(q => ({ ...q.json, response_format: 0 })), plain.srv.log.map(q => ({ ...q.json, response_format: 0 })), 'requests of the underlying generation')
          eq(obj.seen.stepFinish, plain.seen.stepFinish, 'step callbacks')
          if (!txt) {
            ok(!obj.r.ok && lib.shared.InvalidResponseError.isInstance(obj.r.error) && obj.r.error.reason === 'empty_body', () => `a reply without text must fail as empty: ${show(obj.r)}`)
            return
          }
          ok(obj.r.ok, () => `generateObject failed: ${show(obj.r.error)}`)
          const { object, ...rest } = obj.r.value
          eq(object, JSON.parse(txt), 'object')
          eq(rest, plain.r.value, 'remaining fields')
        },
      },
    ],
  }
}
