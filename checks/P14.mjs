import { clone, cutsArb, deepFreeze, eq, fc, jsonReply, makeServer, ok, outcome, show, sseReply, sseText } from '../lib/kit.mjs'
import { buildOptions, chunkPlan, dropIndex, FALLBACK, modelLoop, newSeen, prepareSpec, replyChunks, replyJSON, scenario } from '../lib/loop.mjs'
import { dropOutId, R_FALLBACK, rEvents, rModel, rScenario } from '../lib/rloop.mjs'

const MODES = ['generateText', 'streamText', 'responses', 'telemetry.generateText', 'telemetry.streamText']

export default ({ lib }) => {
  const X = lib.xsai
  const sub = how => ({
    name: how.replace('.', '-'), runs: how.includes('.') ? 900 : 2000,
    arb: () => fc.record({
      sc: how === 'responses'
        ? rScenario({ prepare: prepareSpec(), stop: fc.oneof(fc.constant({ k: 'or', c: [] }), fc.integer({ min: 1, max: 5 }).map(n => ({ k: 'count', n }))) })
        : scenario({ prepare: prepareSpec(), stop: fc.oneof(fc.constant({ k: 'or', c: [] }), fc.integer({ min: 1, max: 5 }).map(n => ({ k: 'count', n }))), ...(how.endsWith('streamText') ? { step: { parts: false } } : {}) }),
      plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 2 }), cuts: cutsArb(3), reuse: fc.constantFrom('no', 'frozen', 'later'),
    }),
    check: async (c, t) => {
      const { sc, plans, cuts } = c
      const resp = how === 'responses'
      const streamed = how.endsWith('streamText')
      const norm = resp ? dropOutId : dropIndex
      const want = resp ? rModel(sc) : modelLoop(sc, streamed ? 'stream' : 'generate', plans)
      const seen = newSeen()
      const srv = makeServer((_, i) => resp ? sseReply(sseText(rEvents(sc.script[i] ?? R_FALLBACK, i)), cuts) : streamed ? sseReply(sseText(replyChunks(sc.script[i] ?? FALLBACK, i, plans[i % plans.length])), cuts) : jsonReply(replyJSON(sc.script[i] ?? FALLBACK, i)))
      const o = buildOptions(sc, { ...lib.chat, ...X }, seen, { fetch: srv.fetch, ...(how.startsWith('telemetry') ? { telemetry: {} } : {}) })
      const inner = o.prepareStep
      const returned = []
      o.prepareStep = (a) => {
        // what was returned for earlier steps may be changed or frozen by its owner at any time
        if (c.reuse === 'later') for (const r of returned) if (r?.input) { r.input.forEach((m) => { m.content = 'LATER' }); r.input.length = 0 }
        const done = (r) => { if (c.reuse === 'frozen' && r) deepFreeze(r); returned.push(r); return r }
        const r = inner(a)
        return r instanceof Promise ? r.then(done) : done(r)
      }
      const [ns, fn] = how.includes('.') ? ['telemetry', how.split('.')[1]] : ['xsai', how]
      const r = await outcome((async () => {
        const x = await (resp ? lib.responses.responses(o) : lib[ns][fn](o))
        return { steps: await x.steps, history: await (x.messages ?? x.input), totalUsage: await x.totalUsage }
      })())
      ok(r.ok, () => `${how} failed: ${show(r.error)}`)
      t.nontrivial(want.requests.length >= 2 && sc.prepare.per.some(p => p.input || p.appendToInput || p.model || p.toolChoice))
      t.cls(`requests=${Math.min(4, want.requests.length)}`, sc.prepare.mutate && 'mutating', c.reuse)
      const p = x => ({ ...x, input: norm(x.input), steps: clone(x.steps).map(s => ({ ...s, text: s.text ?? undefined })) })
      eq(seen.prepares.map(p), want.prepares.map(p), `${how}: what step preparation was given`)
      eq(srv.log.length, want.requests.length, `${how}: number of requests`)
      srv.log.forEach((q, i) => {
        const w = want.requests[i]
        eq({ conv: norm(q.json.messages ?? q.json.input), model: q.json.model, tool_choice: q.json.tool_choice }, { conv: norm(w.messages ?? w.input), model: w.model, tool_choice: w.tool_choice }, `${how}: request ${i}`)
      })
      eq(norm(r.value.history), norm(want.history), `${how}: transcript`)
      eq(r.value.steps.map(s => ({ ...s, text: s.text ?? undefined })), want.steps.map(s => ({ ...s, text: s.text ?? undefined })), `${how}: steps`)
    },
  })
  return {
    rule: 'A case is a multi-step run of a generation client whose step-preparation callback overrides the conversation, model or tool choice of generated steps, synchronously or not, mutates everything it is given, returns frozen objects or changes what it returned earlier. Non-trivial: at least two requests and an override. Oracle: reference model - arguments of every preparation, every request, the transcript and the steps.',
    subs: MODES.map(sub),
  }
}
