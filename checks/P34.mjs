import { clone, eq, fc, jsonVal, makeServer, ok, show, text } from '../lib/kit.mjs'
import { endpointCase, makeEndpoints } from '../lib/endpoints.mjs'

// A generated conversation as plain data: which builder is used, with which content.
const textContent = () => fc.oneof({ weight: 3, arbitrary: text(5) }, { weight: 1, arbitrary: fc.constantFrom('', ' ', 'function', '[]', '{"type":"function","id":"x","function":{}}', 'null', '0') })
const detail = fc.constantFrom('auto', 'high', 'low')
const partText = () => fc.record({ b: fc.constant('textPart'), v: textContent() })
const partImage = () => fc.record({ b: fc.constant('imagePart'), v: fc.constantFrom('https://x.example/i.png', 'data:image/png;base64,AAEC', 'https://x.example/a?b=c&d=%20#f', '') })
const rawPart = () => fc.oneof(
  fc.record({ b: fc.constant('raw'), v: fc.record({ type: fc.constant('input_audio'), input_audio: fc.record({ data: fc.constant('AAEC'), format: fc.constantFrom('mp3', 'wav') }) }) }),
  fc.record({ b: fc.constant('raw'), v: fc.record({ type: fc.constant('file'), file: fc.record({ file_id: text(2), filename: text(2) }, { requiredKeys: [], noNullPrototype: true }) }) }),
  fc.record({ b: fc.constant('raw'), v: fc.record({ type: fc.constant('image_url'), image_url: fc.record({ url: text(2), detail }) }) }),
)
const refusal = () => fc.record({ b: fc.constant('raw'), v: fc.record({ type: fc.constant('refusal'), refusal: text(3) }) })
const call = () => fc.record({ id: fc.oneof(text(2), fc.constantFrom('call_1', '')), type: fc.constant('function'), function: fc.record({ name: fc.constantFrom('weather', 'search', 'constructor'), arguments: fc.oneof(jsonVal(2).map(v => JSON.stringify(v)), fc.constantFrom('', '{')) }) })
const parts = more => fc.array(fc.oneof(partText(), ...more), { minLength: 1, maxLength: 4 })

const msg = () => fc.oneof(
  fc.record({ role: fc.constant('system'), c: fc.oneof(textContent(), parts([])) }),
  fc.record({ role: fc.constant('user'), c: fc.oneof(textContent(), parts([partImage(), partImage(), rawPart()])) }),
  fc.record({ role: fc.constant('assistant'), c: fc.oneof(textContent(), parts([refusal()])) }),
  fc.record({ role: fc.constant('call'), calls: fc.array(call(), { minLength: 1, maxLength: 3 }), single: fc.boolean() }),
  fc.record({ role: fc.constant('tool'), c: fc.oneof(textContent(), parts([partImage(), rawPart()])), call: call() }),
)

export default ({ lib }) => {
  const M = lib.xsai.message
  const eps = makeEndpoints(lib)
  const chat = eps.filter(e => e.path === 'chat/completions')
  const by = Object.fromEntries(eps.map(e => [e.name, e]))
  const build = p => p.b === 'raw' ? clone(p.v) : M[p.b](p.v)
  const meant = p => p.b === 'raw' ? p.v : p.b === 'textPart' ? { type: 'text', text: p.v } : { type: 'image_url', image_url: { url: p.v } }
  const content = (c, f) => typeof c === 'string' ? c : c.map(f)

  const built = (m) => {
    if (m.role === 'call') return M.assistant(m.single && m.calls.length === 1 ? clone(m.calls[0]) : clone(m.calls))
    if (m.role === 'tool') return M.tool(content(m.c, build), clone(m.call))
    return M[m.role](content(m.c, build))
  }
  const expected = (m) => {
    if (m.role === 'call') return { role: 'assistant', tool_calls: m.calls }
    if (m.role === 'tool') return { role: 'tool', content: content(m.c, meant), tool_call_id: m.call.id }
    return { role: m.role, content: content(m.c, meant) }
  }
  const conversation = () => fc.array(msg(), { minLength: 1, maxLength: 5 })
  const wild = ms => ms.some(m => m.role === 'call' || Array.isArray(m.c))
  return {
    rule: 'A case is a conversation made with the message builders: text, part lists (text, image, audio, file, refusal), one tool call or several, tool results. Non-trivial: a part list or a tool call. Oracle: the message each builder names, computed from the same content, and the request body of every chat entry point.',
    assumptions: ['an empty list given to assistant() is not covered: it is neither content nor tool calls to a server'],
    subs: [
      {
        name: 'builders', runs: 6000, arb: conversation,
        check: async (ms, t) => {
          t.nontrivial(wild(ms)); t.cls(...ms.map(m => m.role))
          const list = ms.map(built)
          for (const [i, m] of ms.entries()) {
            eq(list[i], expected(m), `message ${i} (${m.role})`)
            if (list[i].content !== undefined || m.role === 'call') eq(Object.keys(list[i]).sort(), Object.keys(expected(m)).sort(), `fields of message ${i}`)
            if (m.role === 'call') { for (const c of m.calls) ok(M.isToolCall(c), () => `isToolCall(${show(c)})`); ok(M.isToolCall(m.calls), 'isToolCall of a list') }
            else if (m.role === 'assistant') { ok(!M.isToolCall(content(m.c, meant)), () => `isToolCall(${show(m.c)})`) }
          }
          const all = M.messages(...list)
          ok(Array.isArray(all) && all.length === list.length && all.every((x, i) => x === list[i]), 'messages() keeps its messages in order')
        },
      },
      {
        name: 'sent', runs: 3000,
        arb: () => fc.record({ c: endpointCase(chat), ms: conversation() }),
        check: async ({ c, ms }, t) => {
          t.nontrivial(wild(ms)); t.cls(c.ep)
          const ep = by[c.ep]
          const srv = makeServer(() => ep.reply(c.spec))
          await ep.run({ ...ep.options(c.spec), messages: M.messages(...ms.map(built)), baseURL: 'https://h.example/v1/', fetch: srv.fetch })
          eq(srv.log.length, 1, 'requests')
          eq(srv.log[0].json.messages, JSON.parse(JSON.stringify(ms.map(expected))), `${c.ep}: messages sent`)
        },
      },
    ],
  }
}
