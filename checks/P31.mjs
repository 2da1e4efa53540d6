import { env } from '../lib/env.mjs'
import { cutsArb, enc, eq, fc, json, jsonReply, makeServer, mkThrown, ok, outcome, show, splitBytes, sseText, text, thrown } from '../lib/kit.mjs'
import { buildOptions, chunkPlan, dropIndex, FALLBACK, marathon, modelLoop, newSeen, replyChunks, replyJSON, scenario } from '../lib/loop.mjs'
import { CHAT_OUT, chatOutputs, modesFor, observe } from '../lib/observe.mjs'
import { makeTracing } from '../lib/spans.mjs'

// some replace what would be recorded about the server
const OWN = ['gen_ai.provider.name', 'server.address', 'server.port']
const attrs = () => fc.option(fc.dictionary(fc.constantFrom('gen_ai.agent.name', 'user.id', 'app.tags', 'app.n', 'app.flag', ...OWN), fc.oneof(text(2), fc.integer(), fc.boolean(), fc.array(fc.string({ maxLength: 3 }), { maxLength: 2 })), { maxKeys: 3, noNullPrototype: true }), { nil: undefined })
const settings = () => fc.record({
  frequencyPenalty: fc.constantFrom(0, 0.5, -1), presencePenalty: fc.constantFrom(0, 1.5), seed: fc.constantFrom(0, 42), temperature: fc.constantFrom(0, 0.7), topK: fc.constantFrom(0, 40), topP: fc.constantFrom(0, 0.9), stop: fc.constantFrom('END', ['a', 'b'], '', ['', '\n'], []),
}, { requiredKeys: [] })
const bases = () => fc.constantFrom(['https://h.example/v1/', 'h.example', 443], ['http://localhost:11434/v1', 'localhost', 11434], ['http://10.0.0.1/v1', '10.0.0.1', 80], ['https://api.x.ai:8443/a/b/', 'api.x.ai', 8443])
const OPT = { frequencyPenalty: 'gen_ai.request.frequency_penalty', presencePenalty: 'gen_ai.request.presence_penalty', seed: 'gen_ai.request.seed', temperature: 'gen_ai.request.temperature', topK: 'gen_ai.request.top_k', topP: 'gen_ai.request.top_p' }
const FAULTS = ['none', 'none', 'none', 'reject', 'rejectString', 'status', 'malformed', 'break', 'empty', 'noChoices', 'abort', 'stop', 'onStepFinish']

export default ({ lib }) => {
  const X = lib.xsai
  const T = lib.telemetry
  const tracing = makeTracing(lib)
  const ERROR = lib.otelApi.SpanStatusCode.ERROR
  const kind = r => r.span.attributes['gen_ai.operation.name']

  const run = async (c, mode, t) => {
    const { sc, fault, plans } = c
    const seen = newSeen()
    const boom = mkThrown(fault.what)
    const k = fault.step
    let struck
    const payload = i => mode === 'stream' ? replyChunks(sc.script[i] ?? FALLBACK, i, plans[i % plans.length]).map(p => JSON.stringify(p)) : [JSON.stringify(replyJSON(sc.script[i] ?? FALLBACK, i))]
    const srv = makeServer((_, i) => {
      const parts = payload(i)
      if (i === k) {
        const hit = (r) => { struck = i; return r }
        switch (fault.kind) {
          case 'reject': return hit({ reject: boom })
          case 'rejectString': return hit({ reject: 'just a string' })
          case 'status': return hit({ status: 503, body: 'busy' })
          case 'empty': return hit({ status: 200, body: null })
          case 'noChoices': if (mode === 'generate') return hit(jsonReply({ choices: [] })); break
          case 'malformed': case 'break': {
            const head = mode === 'stream' ? parts.slice(0, fault.at % parts.length).map(p => ({ bytes: `data: ${p}\n\n` })) : [{ bytes: parts[0].slice(0, 3) }]
            return hit({ chunks: [...head, fault.kind === 'break' ? { error: boom, delay: 2 } : { bytes: mode === 'stream' ? 'data: {oops\n\n' : '{' }] })
          }
        }
      }
      return { latency: sc.latency, chunks: splitBytes(enc.encode(mode === 'stream' ? sseText(parts) : parts[0]), c.cuts).map(bytes => ({ bytes })) }
    })
    const ac = new AbortController()
    if (fault.kind === 'abort') env.at(env.now + fault.at % 16, () => ac.abort(boom))
    const o = { ...buildOptions(sc, X, seen, { fetch: srv.fetch }), ...c.settings, baseURL: c.base[0], abortSignal: ac.signal, telemetry: c.attributes ? { attributes: c.attributes } : c.bare ? undefined : {} }
    delete o.temperature
    if (c.settings.temperature !== undefined) o.temperature = c.settings.temperature
    if (fault.kind === 'stop') { const inner = o.stopWhen ?? X.stepCountAtLeast(1); o.stopWhen = (x) => { if (x.steps.length - 1 === k) { struck = k; throw boom } return inner(x) } }
    if (fault.kind === 'onStepFinish') { const inner = o.onStepFinish; o.onStepFinish = (s) => { inner(s); if (seen.stepFinish.length - 1 === k) { struck = k; throw boom } } }
    tracing.on()
    const spans = tracing.state.spans
    let error
    let good
    let history
    const watch = () => ok(spans.every(s => s.ends === 1 || s.span.name === 'caller'), () => `spans still open when the call has settled: ${show(spans.filter(s => s.ends !== 1).map(s => s.span.name))}`)
    try {
      const go = async () => {
        if (mode === 'generate') {
          const r = await outcome(T.generateText(o))
          watch()
          good = r.ok; error = r.error; history = r.value?.messages
        }
        else {
          const [streams, promises] = chatOutputs(T.streamText(o))
          const settled = outcome(promises.steps).then(watch)
          await observe(streams, promises, c.modes)
          await settled
          const r = await outcome(promises.messages)
          good = r.ok; error = r.error; history = r.value
        }
      }
      // the caller's own span encloses the call
      if (c.enclosed) await lib.otelApi.trace.getTracer('app').startActiveSpan('caller', async (s) => { try { await go() } catch (e) { throw e } finally { s.end() } })
      else await go()
      await env.quiesce()

      const own = spans.filter(s => s.span.name !== 'caller')
      const caller = spans.find(s => s.span.name === 'caller')
      const chats = own.filter(s => kind(s) === 'chat')
      const tools = own.filter(s => kind(s) === 'execute_tool')
      eq(chats.length + tools.length, own.length, 'only chat and execute_tool spans')
      for (const s of own) eq(s.ends, 1, `how often span ${s.span.name} ended`)
      eq(tracing.state.complaints, [], 'complaints of the tracing SDK (span used after its end, ended twice, invalid attribute)')
      eq(chats.length, srv.log.length, 'one chat span per request')
      eq(tools.map(s => s.span.attributes['gen_ai.tool.call.id']).sort(), seen.exec.map(e => e.toolCallId).sort(), 'one tool span per executed tool')
      const want = modelLoop(sc, mode, plans)
      t.nontrivial(tools.length > 0 || !good)
      t.cls(fault.kind, good ? 'ok' : 'failed', `requests=${Math.min(4, srv.log.length)}`, `tools=${Math.min(4, tools.length)}`, c.enclosed && 'enclosed')

      chats.forEach(({ span }, n) => {
        const body = srv.log[n].json
        const last = n === chats.length - 1
        const failed = !good && last
        const a = { ...span.attributes }
        eq(span.name, `chat ${body.model}`, `name of chat span ${n}`)
        eq(span.parentSpanContext?.spanId ?? span.parentSpanId, caller?.span.spanContext().spanId, `parent of chat span ${n}`)
        const { 'gen_ai.input.messages': inp, 'gen_ai.tool.definitions': defs, 'gen_ai.output.messages': outp, 'gen_ai.response.id': id, ...rest } = a
        eq(JSON.parse(inp), body.messages, `input messages of chat span ${n}`)
        eq(defs === undefined ? undefined : JSON.parse(defs), body.tools?.map(({ type, function: f }) => ({ function: f, type })), `tool definitions of chat span ${n}`)
        ok(id === undefined || typeof id === 'string', 'response id')
        const base = {
          'gen_ai.operation.name': 'chat', 'gen_ai.provider.name': 'openai', 'gen_ai.request.choice.count': 1, 'gen_ai.request.model': body.model, 'gen_ai.response.model': body.model,
          'server.address': c.base[1], 'server.port': c.base[2],
          ...(c.settings.stop !== undefined ? { 'gen_ai.request.stop_sequences': Array.isArray(c.settings.stop) ? c.settings.stop : [c.settings.stop] } : {}),
          ...Object.fromEntries(Object.entries(OPT).filter(([x]) => c.settings[x] !== undefined).map(([x, y]) => [y, c.settings[x]])),
          ...c.attributes,
        }
        const { 'gen_ai.response.finish_reasons': fr, 'gen_ai.usage.input_tokens': ui, 'gen_ai.usage.output_tokens': uo, 'error.message': em, 'error.type': et, ...plainAttrs } = rest
        eq(plainAttrs, base, `attributes of chat span ${n}`)
        const w = want.steps[n]
        if (!failed) {
          eq(fr, [w.finishReason], `finish reasons of chat span ${n}`)
          eq([ui, uo], [w.usage?.inputTokens, w.usage?.outputTokens], `token counts of chat span ${n}`)
          ok(span.status.code !== ERROR && span.events.length === 0 && em === undefined && et === undefined, () => `chat span ${n} of a request that worked is marked as failed: ${show(span.status)}`)
          const said = want.history.filter(m => m.role === 'assistant').slice(-want.steps.length)[n]
          eq(dropIndex(JSON.parse(outp)), dropIndex([said]), `output message of chat span ${n}`)
          if (good) ok(history.some(m => JSON.stringify(dropIndex([m])) === JSON.stringify(dropIndex(JSON.parse(outp)))), `the output message of chat span ${n} is in the transcript`)
        }
        else {
          eq(span.status.code, ERROR, `status of failed chat span ${n}`)
          if (error instanceof Error) {
            eq([em, et, span.status.message], [error.message, error.name, error.message], `error attributes of failed chat span ${n}`)
            const ex = span.events.filter(e => e.name === 'exception')
            eq(ex.map(e => [e.attributes['exception.message'], e.attributes['exception.type']]), [[error.message, error.name]], `exception events of failed chat span ${n}`)
          }
        }
      })
      for (const { span } of tools) {
        const id = span.attributes['gen_ai.tool.call.id']
        const step = Number(id.split('_')[1])
        const x = want.exec.find(e => e.toolCallId === id)
        const spec = sc.tools.find(s => s.name === x.tool)
        const { 'gen_ai.tool.call.result': res, 'error.message': em, 'error.type': et, ...rest } = span.attributes
        eq(span.name, `execute_tool ${x.tool}`, 'name of a tool span')
        eq(rest, { 'gen_ai.operation.name': 'execute_tool', 'gen_ai.tool.call.arguments': JSON.stringify(x.input), 'gen_ai.tool.call.description': `does ${x.tool}`, 'gen_ai.tool.call.id': id, 'gen_ai.tool.call.name': x.tool }, `attributes of the span of ${id}`)
        eq(span.parentSpanContext?.spanId ?? span.parentSpanId, chats[step].span.spanContext().spanId, `parent of the span of ${id}`)
        const bad = spec.kind.startsWith('throw')
        eq(span.status.code === ERROR, bad, `failure mark of the span of ${id}`)
        if (bad) {
          eq(res, undefined, `result of the failed ${id}`)
          if (spec.kind === 'throw') eq([em, et, span.events.map(e => e.attributes['exception.message'])], [`E-${x.tool}`, 'Error', [`E-${x.tool}`]], `error of ${id}`)
        }
        else {
          ok(typeof res === 'string' && em === undefined && span.events.length === 0, () => `result of ${id}: ${show(res)}`)
          const posted = c.sc.hooks?.post?.[x.tool]
          if (!posted || posted === 'none') eq(JSON.parse(res), json(want.posts.find(p => p.id === id)?.res.result ?? want.steps[step].toolResults.find(r => r.toolCallId === id).result), `result of ${id}`)
          else eq(JSON.parse(res), json(want.posts.find(p => p.id === id).res.result), `result of ${id} as the tool gave it`)
        }
      }
      // a tool span lies within the chat span of its step
      for (const s of tools) {
        const chat = chats[Number(s.span.attributes['gen_ai.tool.call.id'].split('_')[1])]
        ok(s.endOrder < chat.endOrder, 'a chat span ended before a tool of its step')
      }
      if (fault.kind !== 'none' && fault.kind !== 'abort' && struck !== undefined) ok(!good, 'the fault was swallowed')
    }
    finally { tracing.off() }
  }
  const rest = { settings: settings(), base: bases(), attributes: attrs(), bare: fc.boolean(), enclosed: fc.boolean(), cuts: cutsArb(3), fault: fc.record({ kind: fc.constantFrom(...FAULTS), step: fc.nat({ max: 3 }), at: fc.nat({ max: 40 }), what: thrown() }), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 2 }) }
  const tool = { kinds: ['echo', 'object', 'parts', 'mixed', 'array', 'throw', 'throwStr', 'throwType', 'unicode', 'emptyStr', 'error'] }
  return {
    rule: 'A case is one generated multi-step call with telemetry under a registered tracer that records every span, with generated request settings, attributes, tools, hooks, step preparation, faults and aborts. Non-trivial: a tool ran or the call failed. Oracle: the span list is derived from the requests that reached the scripted server and the tools that ran: count, names, nesting, single end before the call settles, attributes equal to what was asked for and answered in that very step, failure marks exactly where something failed; the tracing SDK must have nothing to complain about.',
    assumptions: ['the response id attribute is not specified', 'caller attributes reuse no names of recorded attributes but those of the provider and the server'],
    subs: [
      { name: 'generateText', runs: 2000, arb: () => fc.record({ sc: scenario({ tool }), ...rest }), check: (c, t) => run(c, 'generate', t) },
      { name: 'streamText', runs: 2000, arb: () => fc.record({ sc: scenario({ step: { parts: false }, tool }), modes: modesFor(CHAT_OUT), ...rest }), check: (c, t) => run(c, 'stream', t) },
      { name: 'marathon', runs: 24, arb: () => fc.record({ sc: marathon(), stream: fc.boolean(), ...rest, fault: fc.record({ kind: fc.constantFrom('none', 'none', 'none', 'status', 'stop'), step: fc.nat({ max: 60 }), at: fc.nat({ max: 40 }), what: thrown() }) }), check: (c, t) => run(c, c.stream ? 'stream' : 'generate', t) },
      {
        name: 'embeddings', runs: 800,
        arb: () => fc.record({ many: fc.boolean(), what: thrown(), usage: fc.constantFrom({ prompt_tokens: 3, total_tokens: 3 }, { prompt_tokens: 0, total_tokens: 0 }, undefined), fault: fc.constantFrom('none', 'none', 'reject', 'rejectString', 'status', 'malformed', 'abort'), dims: fc.option(fc.nat({ max: 9 }), { nil: undefined }), model: fc.constantFrom('e', 'text-embedding-3'), base: bases(), attributes: attrs(), bare: fc.boolean() }),
        check: async (c, t) => {
          t.nontrivial(); t.cls(c.fault)
          const boom = mkThrown(c.what)
          const srv = makeServer(() => c.fault === 'reject' ? { reject: boom } : c.fault === 'rejectString' ? { reject: 'just a string' } : c.fault === 'status' ? { status: 500, body: 'x' } : c.fault === 'malformed' ? { body: '{' } : jsonReply({ data: [{ index: 0, embedding: [1] }], usage: c.usage }, { latency: 2 }))
          const ac = new AbortController()
          if (c.fault === 'abort') env.at(env.now + 1, () => ac.abort(boom))
          tracing.on()
          try {
            const { spans } = tracing.state
            const r = await outcome((c.many ? T.embedMany : T.embed)({ baseURL: c.base[0], apiKey: 'k', model: c.model, input: c.many ? ['a'] : 'a', dimensions: c.dims, fetch: srv.fetch, abortSignal: ac.signal, telemetry: c.attributes ? { attributes: c.attributes } : c.bare ? undefined : {} }))
            eq(r.ok, c.fault === 'none', 'outcome')
            eq(spans.map(s => s.ends), [1], 'one span, ended once')
            eq(tracing.state.complaints, [], 'complaints of the tracing SDK')
            const { span } = spans[0]
            const { 'error.message': em, 'error.type': et, 'gen_ai.request.encoding_formats': _f, ...a } = span.attributes
            eq(span.name, `embeddings ${c.model}`, 'name')
            eq(a, { 'gen_ai.operation.name': 'embeddings', 'gen_ai.request.model': c.model, 'server.address': c.base[1], 'server.port': c.base[2], ...(c.dims !== undefined ? { 'gen_ai.embeddings.dimension.count': c.dims } : {}), ...(r.ok && c.usage ? { 'gen_ai.usage.input_tokens': c.usage.prompt_tokens } : {}), ...c.attributes }, 'attributes')
            eq(span.status.code === ERROR, !r.ok, 'failure mark')
            if (r.error instanceof Error) eq([em, et, span.events.map(e => e.attributes['exception.message'])], [r.error.message, r.error.name, [r.error.message]], 'recorded error')
            else eq(span.events, [], 'no exception event')
          }
          finally { tracing.off() }
        },
      },
    ],
  }
}
