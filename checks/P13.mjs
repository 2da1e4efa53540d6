import { env } from '../lib/env.mjs'
import { clone, eq, fc, json, jsonReply, makeServer, ok, outcome, show, sseReply, sseText } from '../lib/kit.mjs'
import { chunkPlan, dropIndex, FALLBACK, fresh, replyChunks, replyJSON, TOOL_NAMES } from '../lib/loop.mjs'
import { dropOutId, R_FALLBACK, rEvents } from '../lib/rloop.mjs'

const MODES = ['generateText', 'streamText', 'responses', 'telemetry.generateText', 'telemetry.streamText']

export default ({ lib }) => {
  const X = lib.xsai
  const delay = () => fc.constantFrom(0, 0, 1, 2, 3, 5, 8, 13)
  const callSpec = () => fc.record({ name: fc.oneof({ weight: 8, arbitrary: fc.constantFrom(...TOOL_NAMES) }, { weight: 1, arbitrary: fc.constant('ghost') }), n: fc.nat({ max: 9 }), outcome: fc.constantFrom('ok', 'ok', 'ok', 'throw', 'badArgs', 'syncOk', 'syncThrow'), pre: delay(), exec: delay(), post: delay() })
  const run = async (c, how, timed) => {
    const resp = how === 'responses'
    const spec = {}
    c.steps.forEach((calls, s) => calls.forEach((k, i) => { spec[`call_${s}_${i}`] = k }))
    const log = { starts: [], ends: [], order: [] }
    const wait = ms => timed && ms > 0 ? env.sleep(ms) : Promise.resolve()
    const tool = name => ({
      type: 'function', function: { name, parameters: { type: 'object', properties: {} } },
      validate: v => ({ value: v }),
      execute: (input, o) => {
        const k = spec[o.toolCallId]
        log.starts.push({ id: o.toolCallId, at: env.now, n: input.n, messages: clone(o.messages) })
        log.order.push(`start ${o.toolCallId}`)
        ok(fresh(input), 'the input of a call is that of another call')
        const live = o.messages
        const end = () => {
          log.ends.push({ id: o.toolCallId, at: env.now, messages: clone(live) })
          log.order.push(`end ${o.toolCallId}`)
          if (k.outcome === 'throw' || k.outcome === 'syncThrow') throw new Error(`failed ${input.n}`)
          return { id: o.toolCallId, n: input.n }
        }
        return k.outcome.startsWith('sync') ? end() : wait(k.exec).then(end)
      },
    })
    const sts = c.steps.map(calls => ({ text: null, parts: null, reasoning: null, calls: calls.map(k => ({ name: k.name, args: k.outcome === 'badArgs' ? '{oops' : JSON.stringify({ n: k.n }) })), finish: 'tool_calls', usage: { p: 1, c: 1, extra: 0 } }))
    const rst = sts.map(s => ({ items: s.calls.map(k => ({ k: 'call', ...k })), status: 'completed', usage: null, cuts: [], noise: false }))
    const times = []
    const srv = makeServer((_, i) => {
      times.push(env.now)
      return resp ? sseReply(sseText(rEvents(rst[i] ?? R_FALLBACK, i))) : how.endsWith('streamText') ? sseReply(sseText(replyChunks(sts[i] ?? FALLBACK, i, c.plan))) : jsonReply(replyJSON(sts[i] ?? FALLBACK, i))
    })
    const o = { baseURL: 'https://h.example/v1', apiKey: 'k', model: 'm', fetch: srv.fetch, tools: TOOL_NAMES.map(tool), stopWhen: () => false, ...(resp ? { input: 'q' } : { messages: [{ role: 'user', content: 'q' }] }), ...(how.startsWith('telemetry') ? { telemetry: {} } : {}) }
    const pres = []
    if (c.hooks) {
      o.preToolCall = async (call) => { pres.push(call.toolCallId); await wait(spec[call.toolCallId].pre) }
      o.postToolCall = async (r) => { await wait(spec[r.toolCallId].post) }
    }
    const [ns, fn] = how.includes('.') ? ['telemetry', how.split('.')[1]] : ['xsai', how]
    const r = await (resp ? lib.responses.responses(o) : lib[ns][fn](o))
    const res = await outcome(Promise.all([r.steps, r.messages ?? r.input, r.totalUsage]))
    ok(res.ok, () => `${how} failed: ${show(res.error)}`)
    const norm = ms => resp ? dropOutId(ms).map(x => x) : dropIndex(ms)
    return { log, times, pres, seen: { requests: srv.log.map(q => ({ ...q.json, messages: q.json.messages && norm(q.json.messages), input: q.json.input && norm(q.json.input) })), steps: json(res.value[0]), history: norm(json(res.value[1])), usage: res.value[2] } }
  }
  const sub = how => ({
    name: how.replace('.', '-'), runs: how.includes('.') ? 700 : 1500,
    arb: () => fc.record({ steps: fc.oneof({ weight: 9, arbitrary: fc.array(fc.array(callSpec(), { minLength: 1, maxLength: 5 }), { minLength: 1, maxLength: 2 }) }, { weight: 1, arbitrary: fc.array(fc.array(callSpec(), { minLength: 6, maxLength: 24 }), { minLength: 1, maxLength: 2 }) }), hooks: fc.boolean(), plan: chunkPlan() }),
    check: async (c, t) => {
      const instant = await run(c, how, false)
      const timed = await run(c, how, true)
      t.nontrivial(c.steps.some(s => s.filter(k => k.outcome !== 'badArgs' && k.name !== 'ghost').length > 1))
      eq(timed.seen, instant.seen, `${how}: outcome under another completion order`)
      // results in call order
      c.steps.forEach((calls, s) => {
        const ids = calls.map((_, i) => `call_${s}_${i}`)
        eq(timed.seen.steps[s].toolCalls.map(x => x.toolCallId), ids, `${how}: recorded calls in call order`)
        eq(timed.seen.steps[s].toolResults.map(x => x.toolCallId), ids, `${how}: recorded results in call order`)
        calls.forEach((k, i) => {
          const good = k.name !== 'ghost' && (k.outcome === 'ok' || k.outcome === 'syncOk')
          const r = timed.seen.steps[s].toolResults[i]
          if (good) eq(r.result, { id: ids[i], n: k.n }, `${how}: outcome of call ${ids[i]}`)
          else ok(r.isError === true, `${how}: call ${ids[i]} must be reported as failed`)
        })
        // every runnable call starts as soon as its own hook is done, whatever the others do
        const runnable = ids.filter((_, i) => calls[i].name !== 'ghost' && calls[i].outcome !== 'badArgs')
        const t0 = timed.times[s]
        const starts = timed.log.starts.filter(x => ids.includes(x.id))
        eq(starts.map(x => x.id).sort(), [...runnable].sort(), `${how}: each call runs once`)
        for (const x of starts) eq(x.at - t0, c.hooks ? spec(c, x.id).pre : 0, `${how}: start of ${x.id} after the reply`)
        const before = starts[0]?.messages
        if (how !== 'responses') {
          for (const x of [...starts, ...timed.log.ends.filter(y => ids.includes(y.id))]) eq(dropIndex(x.messages), dropIndex(before), `${how}: transcript seen by ${x.id}`)
          if (before) ok(before.at(-1).role === 'assistant', 'tools see the transcript up to the reply that called them')
        }
        // the next request leaves when the slowest call is done
        const spans = calls.map((k, i) => (c.hooks ? k.pre : 0) + (runnable.includes(ids[i]) ? (k.outcome.startsWith('sync') ? 0 : k.exec) + (c.hooks ? k.post : 0) : 0))
        eq(timed.times[s + 1] - t0, Math.max(...spans), `${how}: the step waits for its slowest call and no longer`)
      })
    },
  })
  const spec = (c, id) => { const [, s, i] = id.split('_'); return c.steps[Number(s)][Number(i)] }
  return {
    rule: 'A case is one or two steps with up to five tool calls each, every call with its own outcome and its own delays (before-hook, execution, after-hook) on a virtual clock. Non-trivial: a step with at least two calls that run. Oracle: identical requests, transcript and steps as in the all-immediate schedule, results in call order, each call starting as soon as its own hook is done, the next request leaving when the slowest is done.',
    subs: MODES.map(sub),
  }
}
