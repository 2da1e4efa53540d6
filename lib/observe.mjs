// Generated consumption patterns over the outputs of a streaming call.
import { env } from './env.mjs'
import { collect, fc, outcome } from './kit.mjs'

export const mode = (opts = {}) => fc.oneof(
  { weight: 4, arbitrary: fc.constant({ m: 'now' }) },
  { weight: 2, arbitrary: fc.constantFrom(1, 4, 40, 500).map(ms => ({ m: 'late', ms })) },
  { weight: 2, arbitrary: fc.constant({ m: 'never' }) },
  ...(opts.cancel === false ? [] : [{ weight: 2, arbitrary: fc.nat({ max: 4 }).map(n => ({ m: 'cancel', n })) }]),
  { weight: 1, arbitrary: fc.constantFrom(1, 3).map(ms => ({ m: 'slow', ms })) },
)
export const modesFor = (names, opts) => fc.record(Object.fromEntries(names.map(n => [n, mode(opts)])))

const one = async (x, md, isStream) => {
  switch (md?.m ?? 'now') {
    case 'never': return undefined
    case 'late': await env.sleep(md.ms); break
    case 'slow': if (isStream) return collect(x, { onChunk: () => env.sleep(md.ms) }); break
    case 'cancel':
      if (!isStream) return undefined
      if (md.n === 0) { try { await x.cancel('not interested'); return { chunks: [], end: 'cancelled' } } catch (error) { return { chunks: [], end: 'errored', error } } }
      return collect(x, { cancelAfter: md.n, reason: 'not interested' })
  }
  return isStream ? collect(x) : outcome(x)
}
// resolves to { name: stream result | promise outcome | undefined }
export const observe = async (streams, promises, plan = {}) => Object.fromEntries(await Promise.all([
  ...Object.entries(streams).filter(([, s]) => s).map(async ([k, s]) => [k, await one(s, plan[k], true)]),
  ...Object.entries(promises).filter(([, s]) => s).map(async ([k, p]) => [k, await one(p, plan[k], false)]),
]))
export const chatOutputs = r => [
  { eventStream: r.eventStream, fullStream: r.fullStream, textStream: r.textStream, reasoningTextStream: r.reasoningTextStream, elementStream: r.elementStream, partialObjectStream: r.partialObjectStream },
  { messages: r.messages, input: r.input, steps: r.steps, usage: r.usage, totalUsage: r.totalUsage },
]
export const CHAT_OUT = ['eventStream', 'fullStream', 'textStream', 'reasoningTextStream', 'messages', 'input', 'steps', 'usage', 'totalUsage']
