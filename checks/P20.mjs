import { clone, cutsArb, deepFreeze, eq, fc, json, jsonReply, makeServer, ok, outcome, show, sseReply, sseText, text, text1 } from '../lib/kit.mjs'
import { drainStreamText, finalChunks, finalJSON, objectSchema, responseEvents } from '../lib/endpoints.mjs'
import { accepts, makeBuilder, schemaAst, spoil, toJson, valueOf, VENDORS } from '../lib/schemas.mjs'

// what strictness means for the objects the schema generator makes
const closed = (s) => {
  if (s === null || typeof s !== 'object') return s
  if (Array.isArray(s)) return s.map(closed)
  const o = {}
  for (const [k, v] of Object.entries(s)) o[k] = k === 'properties' ? Object.fromEntries(Object.entries(v).map(([n, x]) => [n, closed(x)])) : (k === 'anyOf' || k === 'items') ? closed(v) : v
  if (o.type === 'object') o.additionalProperties = false
  return o
}
const ENTRIES = ['generateText', 'streamText', 'generateObject', 'streamObject', 'tele.generateText', 'tele.streamText', 'responses']

export default ({ lib }) => {
  const B = makeBuilder(lib)
  const { tool, defineTool, rawTool } = lib.xsai
  const run = {
    'generateText': o => lib.xsai.generateText(o),
    'streamText': async o => drainStreamText(lib.xsai.streamText(o)),
    'generateObject': o => lib.xsai.generateObject({ ...o, schema: objectSchema }),
    'streamObject': async o => drainStreamText(await lib.xsai.streamObject({ ...o, schema: objectSchema })),
    'tele.generateText': o => lib.telemetry.generateText(o),
    'tele.streamText': async o => drainStreamText(lib.telemetry.streamText(o)),
    'responses': async ({ messages, ...o }) => drainStreamText(lib.responses.responses({ ...o, input: messages })),
  }
  // a server that calls every tool once with the same arguments, then answers
  const serve = (entry, calls, cuts) => makeServer((_, i) => {
    if (entry === 'responses') {
      if (i > 0) return sseReply(sseText(responseEvents('{"a":"b"}')), cuts)
      const output = calls.map((c, k) => ({ id: `fc${k}`, type: 'function_call', call_id: c.id, name: c.name, arguments: c.args, status: 'completed' }))
      return sseReply(sseText([
        ...output.flatMap((item, output_index) => [{ type: 'response.output_item.added', output_index, item: { ...item, arguments: '' } }, { type: 'response.function_call_arguments.delta', item_id: item.id, output_index, delta: item.arguments }, { type: 'response.output_item.done', output_index, item }]),
        { type: 'response.completed', response: { id: 'r', status: 'completed', output } },
      ]), cuts)
    }
    const tc = calls.map((c, index) => ({ index, id: c.id, type: 'function', function: { name: c.name, arguments: c.args } }))
    const streamed = /stream/i.test(entry)
    if (i > 0) return streamed ? sseReply(sseText(finalChunks('{"a":"b"}')), cuts) : jsonReply(finalJSON('{"a":"b"}'))
    if (streamed) return sseReply(sseText([...tc.map(x => ({ choices: [{ index: 0, delta: { tool_calls: [x] } }] })), { choices: [{ index: 0, delta: {}, finish_reason: 'tool_calls' }] }]), cuts)
    return jsonReply({ id: 'r', model: 'm', created: 1, object: 'chat.completion', choices: [{ index: 0, finish_reason: 'tool_calls', message: { role: 'assistant', tool_calls: tc.map(({ index, ...x }) => x) } }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } })
  })
  return {
    rule: 'A case is a generated object schema built by one of nine schema libraries (optionally transforming), a name, description and strictness flag, an implementation outcome, fitting or spoilt arguments, and one of seven entry points; the same tool is declared by tool(), defineTool(), rawTool() and by hand, all are offered in one call and the scripted server calls each. Non-trivial: the schema has a nested object, or the arguments are spoilt, or the validator transforms. Oracle: the declarations on the wire are equal up to the name and equal to the strictness model; executions, inputs, contexts and the results sent back are equal and expected.',
    assumptions: ['defineTool is used with schemas that implement Standard JSON Schema'],
    subs: [
      {
        name: 'declare-and-run', runs: 1800,
        arb: () => fc.record({
          entry: fc.constantFrom(...ENTRIES), vendor: fc.constantFrom(...VENDORS), share: fc.boolean(),
          c: schemaAst().chain(a => fc.record({ a: fc.constant(a), v: valueOf(a), p: fc.array(fc.nat({ max: 30 }), { minLength: 1, maxLength: 3 }) })),
          bad: fc.boolean(), transform: fc.constantFrom(false, false, 'wrap', 'falsy'),
          name: text1(2), description: fc.option(text(3), { nil: undefined }), strict: fc.constantFrom(undefined, true, false),
          result: fc.constantFrom('text', 'object', 'throw', 'async'), space: fc.constantFrom('', ' ', '\n'), signal: fc.boolean(), cuts: cutsArb(3),
        }),
        check: async ({ entry, vendor, share, c: { a, v, p }, bad, transform, name, description, strict, result, space, signal, cuts }, t) => {
          const s = B(vendor, a, share)
          const own = vendor === 'standard' || vendor === 'promised'
          if (own && transform) {
            const std = s['~standard']
            const plain = std.validate
            std.secret = transform === 'wrap' ? (x => ({ wrapped: x })) : (() => 0)
            // relies on being called as a method
            std.validate = vendor === 'promised'
              ? async function (x) { const r = await plain(x); return r.issues ? r : { value: this.secret(r.value) } }
              : function (x) { const r = plain(x); return r.issues ? r : { value: this.secret(r.value) } }
          }
          const transforms = own && !!transform
          const input = bad ? spoil(a, v, p) : v
          const fits = accepts(a, input)
          const json0 = await lib.xsschema.toJsonSchema(s)
          const exec = []
          const impl = who => (x, o) => {
            exec.push({ who, x: clone(x), id: o.toolCallId, messages: json(o.messages), signal: o.abortSignal })
            if (result === 'throw') throw new Error('tool broke')
            const out = result === 'object' ? { got: x === undefined ? null : x } : 'done'
            return result === 'async' ? Promise.resolve(out) : out
          }
          const hasJson = typeof s['~standard']?.jsonSchema?.input === 'function'
          const nm = k => `${name}${k}`
          const expectParams = strict !== false ? closed(json0) : json0
          const frozen = deepFreeze(clone(json0))
          const builds = [
            ['tool', async () => tool({ name: nm(0), description, strict, parameters: s, execute: impl('tool') }), true],
            ['rawTool', async () => rawTool({ name: nm(1), description, strict, parameters: frozen, execute: impl('rawTool') }), false],
            ['hand', async () => ({ type: 'function', function: { name: nm(2), description, strict: strict ?? true, parameters: clone(expectParams) }, execute: impl('hand') }), false],
            ...(hasJson ? [['defineTool', async () => defineTool({ name: nm(3), description, strict, parameters: s, execute: impl('defineTool') }), true]] : []),
          ]
          t.nontrivial(!fits || transforms || a.f.some(f => f.s.k === 'obj' || f.s.k === 'arr')); t.cls(entry, vendor, hasJson && 'definition-form', fits ? 'fits' : 'spoilt')
          const tools = []
          for (const [, make] of builds) tools.push(await make())
          // the same schema serves other tools, with other strictness
          for (const st of [strict === false, strict]) {
            const want = json(st !== false ? closed(json0) : json0)
            for (const [who, make] of [['tool', tool], ...(hasJson ? [['defineTool', defineTool]] : [])]) eq(json((await make({ name: 'other', strict: st, parameters: s, execute: impl('other') })).function.parameters), want, `${who}: parameters of another tool with this schema, strict: ${st}`)
            eq(json(rawTool({ name: 'other', strict: st, parameters: frozen, execute: impl('other') }).function.parameters), want, `rawTool: parameters of another tool with this schema, strict: ${st}`)
          }
          const argsText = space + JSON.stringify(input) + space
          const calls = tools.map((x, k) => ({ id: `c${k}`, name: x.function.name, args: argsText }))
          const srv = serve(entry, calls, cuts)
          const ctl = new AbortController()
          const messages = [{ role: 'user', content: 'go' }]
          const r = await outcome(run[entry]({ baseURL: 'https://h.example/v1/', apiKey: 'k', model: 'm', messages, fetch: srv.fetch, tools, stopWhen: () => false, ...(signal ? { abortSignal: ctl.signal } : {}) }))
          ok(r.ok, () => `the call failed: ${show(r.error)}`)
          // declarations
          const decl = srv.log[0].json.tools
          eq(decl.length, tools.length, 'number of declared tools')
          decl.forEach((d, k) => {
            const fn = { name: tools[k].function.name, ...(description !== undefined ? { description } : {}), strict: strict ?? true, parameters: json(expectParams) }
            eq(d, entry === 'responses' ? { type: 'function', ...fn, description: description ?? null } : { type: 'function', function: fn }, `${builds[k][0]}: declaration on the wire`)
          })
          if (own) eq(json(json0), json(toJson(a, share ? new Map() : undefined)), 'input schema in draft-07')
          // executions
          builds.forEach(([who, , validates], k) => {
            const mine = exec.filter(e => e.who === who)
            const runs = fits || !validates
            ok(mine.length === (runs ? 1 : 0), () => `${who} ran ${mine.length} times for ${fits ? 'fitting' : 'unfitting'} input ${show(input)}`)
            if (runs) {
              const plainValue = !validates || vendor !== 'effect'
              const want = validates && transforms ? (transform === 'wrap' ? { wrapped: json(input) } : 0) : json(input)
              // libraries may drop unknown keys; the generated values have none unless spoilt
              if (plainValue) eq(mine[0].x, want, `${who}: input of the implementation`)
              eq(mine[0].id, `c${k}`, `${who}: call id`)
              ok(mine[0].signal === (signal ? ctl.signal : undefined), `${who}: abort signal`)
            }
            const back = entry === 'responses' ? srv.log[1].json.input.filter(x => x.type === 'function_call_output' && x.call_id === `c${k}`).map(x => x.output) : srv.log[1].json.messages.filter(m => m.role === 'tool' && m.tool_call_id === `c${k}`).map(m => m.content)
            const want = !runs
              ? `Tool "${nm([0, 1, 2, 3][k])}" execution failed: Tool input validation failed for "${nm([0, 1, 2, 3][k])}".`
              : result === 'throw' ? `Tool "${nm([0, 1, 2, 3][k])}" execution failed: tool broke` : result === 'object' ? JSON.stringify({ got: mine[0].x === undefined ? null : mine[0].x }) : 'done'
            eq(back, [want], `${who}: result sent back`)
          })
          // same context for every way of declaring
          const first = exec[0]
          for (const e of exec) eq(e.messages, first.messages, 'messages in the context')
        },
      },
      {
        // parameters of any shape, down to none at all
        name: 'raw', runs: 900,
        arb: () => fc.record({
          entry: fc.constantFrom(...ENTRIES), strict: fc.constantFrom(undefined, true, false), description: fc.option(text(2), { nil: undefined }),
          parameters: fc.oneof(
            fc.constantFrom({}, { type: 'object' }, { type: 'object', properties: {} }, { type: 'object', properties: {}, required: [] }, { type: 'object', properties: {}, additionalProperties: true }, { $ref: '#/$defs/A', $defs: { A: { type: 'object', properties: { a: { type: 'string' } } } } }),
            schemaAst().map(a => toJson(a)),
          ),
          args: fc.constantFrom('', '{}', '{"a":1}', ' '), cuts: cutsArb(2),
        }),
        check: async ({ entry, strict, description, parameters, args, cuts }, t) => {
          t.nontrivial(); t.cls(entry, parameters.properties && Object.keys(parameters.properties).length > 0 ? 'properties' : 'no-properties')
          const got = []
          const built = rawTool({ name: 'raw', description, strict, parameters: deepFreeze(clone(parameters)), execute: (x) => { got.push(x); return 'done' } })
          const srv = serve(entry, [{ id: 'c0', name: 'raw', args }], cuts)
          const r = await outcome(run[entry]({ baseURL: 'https://h.example/v1/', apiKey: 'k', model: 'm', messages: [{ role: 'user', content: 'go' }], fetch: srv.fetch, tools: [built], stopWhen: () => false }))
          ok(r.ok, () => `the call failed: ${show(r.error)}`)
          const { strict: s, parameters: p, ...d } = entry === 'responses' ? srv.log[0].json.tools[0] : srv.log[0].json.tools[0].function
          ok(s === (strict ?? true), () => `strictness on the wire: ${s} for ${strict}`)
          eq(d, { ...(entry === 'responses' ? { type: 'function', description: description ?? null } : description !== undefined ? { description } : {}), name: 'raw' }, 'declaration on the wire')
          if (strict === false || parameters.type === 'object') eq(p, json(strict === false ? parameters : closed(parameters)), 'parameters on the wire')
          eq(got, [JSON.parse(args.trim() || '{}')], 'input of the implementation')
        },
      },
    ],
  }
}
