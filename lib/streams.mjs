// Every streaming call of the SDK as data: a generated case, the events its server sends per request,
// and how to start it. `start` returns the streams and promises the call hands out and what its callbacks saw.
import { fc, frac, text } from './kit.mjs'
import { objectSchema } from './endpoints.mjs'
import { buildOptions, chunkPlan, FALLBACK, longRun, newSeen, replyChunks, scenario } from './loop.mjs'
import { dropOutId, longRRun, R_FALLBACK, rEvents, rScenario } from './rloop.mjs'

const base = { baseURL: 'https://h.example/v1/', apiKey: 'k', model: 'm' }
const b64 = bytes => Buffer.from(bytes).toString('base64')
const chatOut = (r, seen) => ({
  streams: { event: r.eventStream, full: r.fullStream, text: r.textStream, reasoning: r.reasoningTextStream, ...(r.elementStream ? { el: r.elementStream } : {}), ...(r.partialObjectStream ? { po: r.partialObjectStream } : {}) },
  promises: { messages: r.messages, steps: r.steps, usage: r.usage, total: r.totalUsage },
  seen,
})
const watch = seen => ({ onEvent: (e) => { seen.events.push(e) }, onFinish: (s) => { seen.finish.push(s) } })
// many pieces: queues and buffers of any fixed small size overflow
const many = () => fc.oneof(...[[20, 160], [300, 1200]].map(([minLength, maxLength]) => fc.array(frac(), { minLength, maxLength, size: 'max' })))
const objectPieces = (s, pieces) => {
  const chars = Array.from(s)
  const out = []
  for (let k = 0, i = 0; i < chars.length; k++) { const n = pieces[k % pieces.length]; out.push(chars.slice(i, i + n).join('')); i += n }
  return out
}

export const makeStreamKinds = (lib) => {
  const X = lib.xsai
  const R = lib.responses
  const kinds = {
    streamText: {
      outs: ['event', 'full', 'text', 'reasoning', 'messages', 'steps', 'usage', 'total'],
      gen: () => fc.record({ sc: scenario({ step: { parts: false }, prepare: fc.constant(undefined), hooks: fc.constant(undefined) }), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 2 }) }),
      big: () => fc.record({ sc: scenario({ ...longRun(), step: { ...longRun().step, minSteps: 1, maxSteps: 4, text: 600 }, prepare: fc.constant(undefined), hooks: fc.constant(undefined) }), plans: fc.array(chunkPlan(), { minLength: 1, maxLength: 2 }), fine: many() }).map(({ fine, ...c }) => ({ ...c, plans: c.plans.map(p => ({ ...p, textCuts: fine })) })),
      events: (c, i) => replyChunks(c.sc.script[i] ?? FALLBACK, i, c.plans[i % c.plans.length]),
      start: (c, fetch, more) => { const seen = newSeen(); return chatOut(X.streamText(buildOptions(c.sc, X, seen, { fetch, ...watch(seen), ...more?.(seen) })), seen) },
    },
    telemetryStreamText: {
      outs: ['event', 'full', 'text', 'reasoning', 'messages', 'steps', 'usage', 'total'],
      gen: () => kinds.streamText.gen(), big: () => kinds.streamText.big(), events: (c, i) => kinds.streamText.events(c, i),
      start: (c, fetch, more) => { const seen = newSeen(); return chatOut(lib.telemetry.streamText(buildOptions(c.sc, X, seen, { fetch, telemetry: {}, ...watch(seen), ...more?.(seen) })), seen) },
    },
    streamObject: {
      outs: ['event', 'full', 'text', 'reasoning', 'el', 'po', 'messages', 'steps', 'usage', 'total'],
      gen: () => fc.record({ out: fc.constantFrom('object', 'array'), vals: fc.array(fc.record({ a: text(3) }), { maxLength: 3 }), pieces: fc.array(fc.integer({ min: 1, max: 9 }), { minLength: 1, maxLength: 5 }) }),
      big: () => fc.record({ out: fc.constantFrom('object', 'array', 'array'), vals: fc.array(fc.record({ a: text(30) }), { minLength: 20, maxLength: 120 }), pieces: fc.array(fc.integer({ min: 1, max: 90 }), { minLength: 1, maxLength: 5 }) }),
      events: c => [
        ...objectPieces(JSON.stringify(c.out === 'array' ? { elements: c.vals } : c.vals[0] ?? { a: '' }), c.pieces).map(content => ({ id: 'x', choices: [{ index: 0, delta: { content } }] })),
        { id: 'x', choices: [{ index: 0, delta: {}, finish_reason: 'stop' }] },
      ],
      start: async (c, fetch, more) => { const seen = newSeen(); return chatOut(await X.streamObject({ ...base, messages: [{ role: 'user', content: 'q' }], schema: objectSchema, output: c.out, fetch, ...watch(seen), ...more?.(seen) }), seen) },
    },
    responses: {
      outs: ['event', 'full', 'text', 'reasoning', 'input', 'steps', 'usage', 'total'],
      gen: () => fc.record({ sc: rScenario({ prepare: fc.constant(undefined), hooks: fc.constant(undefined) }) }),
      big: () => fc.record({ sc: rScenario({ ...longRRun(), minSteps: 1, maxSteps: 4, text: 300, prepare: fc.constant(undefined), hooks: fc.constant(undefined) }), fine: many() }).map(({ sc, fine }) => ({ sc: { ...sc, script: sc.script.map(s => ({ ...s, cuts: fine })) } })),
      events: (c, i) => rEvents(c.sc.script[i] ?? R_FALLBACK, i),
      start: (c, fetch, more) => {
        const seen = newSeen()
        const r = R.responses(buildOptions(c.sc, { ...lib.chat, ...R }, seen, { fetch, ...watch(seen), ...more?.(seen) }))
        const input = r.input.then(dropOutId)
        input.catch(() => {})
        return { streams: { event: r.eventStream, full: r.fullStream, text: r.textStream, reasoning: r.reasoningTextStream }, promises: { input, steps: r.steps, usage: r.usage, total: r.totalUsage }, seen }
      },
    },
    streamSpeech: {
      outs: ['full', 'usage'],
      gen: () => fc.record({ parts: fc.array(fc.uint8Array({ maxLength: 12 }), { maxLength: 5 }), usage: fc.boolean(), done: fc.boolean() }),
      big: () => fc.record({ parts: fc.array(fc.uint8Array({ maxLength: 900 }), { minLength: 20, maxLength: 150 }), usage: fc.boolean(), done: fc.boolean() }),
      events: c => [...c.parts.map(p => ({ type: 'speech.audio.delta', audio: b64(p) })), ...(c.done ? [{ type: 'speech.audio.done', ...(c.usage ? { usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3 } } : {}) }] : [])],
      start: async (c, fetch) => {
        const r = await X.streamSpeech({ ...base, input: 'q', voice: 'v', fetch })
        return { streams: { full: r.fullStream }, promises: { usage: r.usage } }
      },
    },
    streamTranscription: {
      outs: ['full', 'text', 'textPromise'],
      gen: () => fc.record({ parts: fc.array(text(3), { maxLength: 6 }), done: fc.boolean() }),
      big: () => fc.record({ parts: fc.array(text(12), { minLength: 30, maxLength: 300 }), done: fc.boolean() }),
      events: c => [...c.parts.map(delta => ({ type: 'transcript.text.delta', delta })), ...(c.done ? [{ type: 'transcript.text.done', text: c.parts.join('') }] : [])],
      start: async (c, fetch) => {
        const r = X.streamTranscription({ ...base, file: new Blob(['x']), fetch })
        return { streams: { full: r.fullStream, text: r.textStream }, promises: { textPromise: r.text } }
      },
    },
  }
  return kinds
}
