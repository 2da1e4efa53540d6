import { readFileSync } from 'node:fs'
import { pathToFileURL } from 'node:url'
import { baseStr, baseURLArb, dec, enc, eq, expectURL, fc, jsonReply, jsonVal, makeServer, ok, show, strip, text1 } from '../lib/kit.mjs'
import { finalJSON } from '../lib/endpoints.mjs'

const TABLE = JSON.parse(readFileSync(new URL('../data/providers.json', import.meta.url), 'utf8'))
const CAPS = ['chat', 'embed', 'image', 'model', 'speech', 'transcription']
const ENV = [...new Set(Object.values(TABLE.presets).flatMap(p => p.env ?? []))].sort()
const join1 = (base, path) => base.endsWith('/') ? base + path : `${base}/${path}`

// the client call a capability is made for, its path and a minimal good reply
const CALLS = {
  chat: { path: 'chat/completions', reply: () => jsonReply(finalJSON()), run: (X, o) => X.generateText({ ...o, messages: [{ role: 'user', content: 'q' }] }), body: r => r.json, good: r => r.text === 'hi' },
  embed: { path: 'embeddings', reply: () => jsonReply({ data: [{ embedding: [1, 2], index: 0, object: 'embedding' }], model: 'm', object: 'list', usage: { prompt_tokens: 1, total_tokens: 1 } }), run: (X, o) => X.embed({ ...o, input: 'q' }), body: r => r.json, good: r => r.embedding.length === 2 },
  image: { path: 'images/generations', reply: () => jsonReply({ created: 1, data: [{ b64_json: 'AAEC' }] }), run: (X, o) => X.generateImage({ ...o, prompt: 'q' }), body: r => r.json, good: r => typeof r.image === 'object' },
  speech: { path: 'audio/speech', reply: () => ({ headers: {}, body: 'AUDIO' }), run: (X, o) => X.generateSpeech({ ...o, input: 'q', voice: 'v' }), body: r => r.json, good: r => dec.decode(r) === 'AUDIO' },
  transcription: { path: 'audio/transcriptions', reply: () => jsonReply({ text: 'hi' }), run: (X, o) => X.generateTranscription({ ...o, file: new Blob([enc.encode('x')]) }), body: r => Object.fromEntries(r.form ?? []), good: r => r.text === 'hi' },
  model: { path: 'models', reply: name => jsonReply(['createTogetherAI', 'createFeatherless'].includes(name) ? [{ id: 'a', object: 'model' }] : { object: 'list', data: [{ id: 'a', object: 'model' }] }), run: (X, o) => X.listModels(o), body: () => ({}), good: r => r.length === 1 && r[0].id === 'a' },
}

const plain = (o) => {
  const r = strip({ ...o })
  delete r.fetch
  if (o.headers instanceof Headers) r.headers = Object.fromEntries(o.headers)
  return r
}
const withFetch = async (fetch, fn) => {
  const saved = globalThis.fetch
  globalThis.fetch = fetch
  try { return await fn() }
  finally { globalThis.fetch = saved }
}

export default ({ lib, presetsFile }) => {
  const X = lib.xsai
  const U = lib.providersUtils
  const create = { ...lib.providersCreate, ...lib.providersSpecialCreate }
  let n = 0
  const getters = {
    chat: o => U.createChatProvider(o), chatX: o => U.createChatProviderWithExtraOptions(o),
    embed: o => U.createEmbedProvider(o), embedX: o => U.createEmbedProviderWithExtraOptions(o),
    image: o => U.createImageProvider(o), model: o => U.createModelProvider(o), modelX: o => U.createModelProviderWithExtraOptions(o),
    speech: o => U.createSpeechProvider(o), speechX: o => U.createSpeechProviderWithExtraOptions(o),
    transcription: o => U.createTranscriptionProvider(o), transcriptionX: o => U.createTranscriptionProviderWithExtraOptions(o),
  }
  const model = () => fc.oneof(text1(2), fc.constantFrom('gpt-4o', 'org/model:free', '~x/latest', 'constructor'))
  const envVal = () => fc.constantFrom('unset', 'set', 'set', 'empty')
  const headersArb = () => fc.oneof({ weight: 2, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: fc.record({ form: fc.constantFrom('record', 'Headers'), h: fc.dictionary(fc.constantFrom('x-a', 'x-b', 'authorization', 'x-title'), fc.constantFrom('1', '2', 'z'), { maxKeys: 3, noNullPrototype: true }) }) })
  const mkHeaders = h => h === null ? {} : { headers: h.form === 'record' ? { ...h.h } : new Headers(h.h) }
  const extra = () => fc.option(fc.record({ thinking: fc.constantFrom({ type: 'enabled', budget_tokens: 5 }, undefined), temperature: fc.constantFrom(0, 1), custom: jsonVal(1) }, { requiredKeys: [] }), { nil: undefined })

  const optsOf = (provider, cap, m, more) => cap === 'model' ? provider.model(more) : provider[cap](m, more)
  return {
    rule: 'A case is (presets) an environment giving each of the documented key variables a value, an empty value or none; (factories) one documented factory with a generated key, base URL, capability and model, used through its client call against a scripted server; (histories) a sequence of obtaining options from, changing the obtained options of, calling with, and merging generated providers. Non-trivial: a case with at least one preset key set, every factory case, a history that changes or merges after options were handed out. Oracle: the committed reference table of presets and factories (data/providers.json), the wire requests, and a model of each provider as an immutable settings record.',
    assumptions: ['the reference table was read off the documentation of the presets at the pinned commit', 'calls are observed through globalThis.fetch, which the presets use'],
    subs: [
      {
        name: 'presets', runs: 72,
        arb: () => fc.record({ env: fc.record(Object.fromEntries(ENV.map(k => [k, envVal()]))), model: model() }),
        check: async ({ env: spec, model: m }, t) => {
          t.nontrivial(Object.values(spec).includes('set'))
          const vars = Object.fromEntries(Object.entries(spec).filter(([, v]) => v !== 'unset').map(([k, v]) => [k, v === 'empty' ? '' : `sk ${k}`]))
          const saved = process.env
          let mod
          try {
            process.env = vars
            mod = await import(`${pathToFileURL(presetsFile).href}?n=${n++}`)
          }
          finally { process.env = saved }
          const all = { ...mod.presets, ...mod.special }
          for (const [name, p] of Object.entries(TABLE.presets)) {
            const preset = all[name]
            ok(preset !== undefined, () => `preset ${name} is missing`)
            if (p.alias) { ok(preset === all[p.alias], () => `preset ${name} is not ${p.alias}`); continue }
            const f = TABLE.factories[p.factory]
            eq(CAPS.filter(c => typeof preset[c] === 'function'), CAPS.filter(c => f.caps.includes(c)), `capabilities of ${name}`)
            const key = p.env.map(k => vars[k]).find(v => v !== undefined) ?? ''
            for (const cap of f.caps) {
              const o = optsOf(preset, cap, m)
              eq({ apiKey: o.apiKey, baseURL: String(o.baseURL), model: o.model }, { apiKey: p.env.length === 0 ? undefined : key, baseURL: p.baseURL, model: cap === 'model' ? undefined : m }, `${name}.${cap}`)
            }
          }
        },
      },
      {
        name: 'factories', runs: 2000,
        arb: () => fc.constantFrom(...Object.entries(TABLE.factories).flatMap(([name, f]) => f.caps.map(cap => ({ name, cap })))).chain(fcase => fc.record({ fcase: fc.constant(fcase), key: fc.constantFrom('k', 'sk-1234', 'a b', 'x'.repeat(60)), base: fc.option(baseURLArb(), { nil: null }), model: model() })),
        check: async ({ fcase: { name, cap }, key, base, model: m }, t) => {
          t.nontrivial(); t.cls(cap, base ? 'own-base' : 'default-base')
          const custom = base === null ? undefined : baseStr(base)
          const provider = name === 'createPlayer2' ? create[name](custom) : create[name](key, custom)
          const call = CALLS[cap]
          const player = name === 'createPlayer2'
          const srv = makeServer(() => player && cap === 'speech' ? jsonReply({ data: btoa('AUDIO') }) : call.reply(name))
          await withFetch(srv.fetch, async () => {
            const r = await call.run(X, optsOf(provider, cap, m))
            ok(call.good(r), () => `${name}.${cap} answered ${show(r)}`)
          })
          eq(srv.log.length, 1, 'requests')
          const q = srv.log[0]
          const path = player && cap === 'speech' ? 'tts/speak' : call.path
          eq(q.url, base ? expectURL(base, path) : join1(TABLE.factories[name].baseURL, path), `URL of ${name}.${cap}`)
          eq(q.headers.authorization, player ? undefined : `Bearer ${key}`, `key of ${name}.${cap}`)
          if (cap !== 'model') eq(call.body(q).model, m, `model of ${name}.${cap}`)
        },
      },
      {
        name: 'histories', runs: 2000,
        arb: () => fc.record({
          providers: fc.array(fc.record({ kinds: fc.uniqueArray(fc.constantFrom(...Object.keys(getters)), { minLength: 1, maxLength: 3, selector: k => k.replace('X', '') }), key: fc.constantFrom('k1', 'k2', undefined), host: fc.constantFrom('https://a.example/v1/', 'https://b.example/v1'), headers: headersArb(), shared: fc.boolean() }), { minLength: 1, maxLength: 3 }),
          ops: fc.array(fc.oneof(
            { weight: 5, arbitrary: fc.record({ op: fc.constant('get'), p: fc.nat({ max: 5 }), c: fc.nat({ max: 5 }), model: model(), extra: extra() }) },
            { weight: 3, arbitrary: fc.record({ op: fc.constant('change'), i: fc.nat({ max: 9 }), how: fc.constantFrom('baseURL', 'apiKey', 'model', 'header', 'newField', 'remove') }) },
            { weight: 1, arbitrary: fc.record({ op: fc.constant('call'), i: fc.nat({ max: 9 }) }) },
            { weight: 2, arbitrary: fc.record({ op: fc.constant('merge'), a: fc.nat({ max: 5 }), b: fc.nat({ max: 5 }) }) },
          ), { minLength: 2, maxLength: 12 }),
        }),
        check: async ({ providers, ops }, t) => {
          const pool = [] // { obj, caps: Map<cap, {settings, takesExtra}> }
          const inputs = []
          for (const p of providers) {
            const settings = { ...(p.key === undefined ? {} : { apiKey: p.key }), baseURL: p.host, ...(p.headers ? { headers: { ...p.headers.h } } : {}) }
            const mk = () => ({ ...(p.key === undefined ? {} : { apiKey: p.key }), baseURL: p.host, ...mkHeaders(p.headers) })
            const one = mk()
            const parts = p.kinds.map((k) => {
              const input = p.shared ? one : mk()
              inputs.push({ input, settings })
              return { obj: getters[k](input), caps: { [k.replace('X', '')]: { settings, takesExtra: k.endsWith('X') } } }
            })
            pool.push(...parts)
            pool.push({ obj: U.merge(...parts.map(x => x.obj)), caps: Object.assign({}, ...parts.map(x => x.caps)) })
          }
          const got = [] // { o, expected } ; expected null once changed by us
          let changed = false
          let merged = false
          const verify = (where) => {
            for (const [i, g] of got.entries()) if (g.expected) eq(plain(g.o), plain(g.expected), `options ${i} after ${where}`)
            for (const x of inputs) eq(plain(x.input), plain(x.settings), `the settings given to a provider after ${where}`)
            for (const [i, p] of pool.entries()) eq(Object.keys(p.obj).sort(), Object.keys(p.caps).sort(), `capabilities of provider ${i} after ${where}`)
          }
          verify('creation')
          for (const op of ops) {
            if (op.op === 'get') {
              const p = pool[op.p % pool.length]
              const caps = Object.keys(p.caps)
              const cap = caps[op.c % caps.length]
              const { settings, takesExtra } = p.caps[cap]
              const more = op.extra === undefined ? undefined : structuredClone(op.extra)
              const o = optsOf(p.obj, cap, op.model, takesExtra ? more : undefined)
              const expected = { ...settings, ...(cap === 'model' ? {} : { model: op.model }), ...(takesExtra ? op.extra : {}) }
              eq(plain(o), plain(expected), `options of ${cap}`)
              if (takesExtra && op.extra) eq(more, op.extra, 'the extra options given')
              got.push({ o, expected, cap })
              if (changed || merged) t.nontrivial()
            }
            else if (op.op === 'change') {
              if (got.length === 0) continue
              const g = got[op.i % got.length]
              g.expected = null
              changed = true
              if (op.how === 'header') {
                if (g.o.headers instanceof Headers) g.o.headers.set('x-changed', 'yes')
                else if (g.o.headers) g.o.headers['x-changed'] = 'yes'
                else g.o.headers = { 'x-changed': 'yes' }
              }
              else if (op.how === 'remove') { for (const k of Object.keys(g.o)) delete g.o[k] }
              else { g.o[op.how] = 'https://changed.example/' }
            }
            else if (op.op === 'call') {
              const g = got[op.i % Math.max(1, got.length)]
              if (!g?.expected || typeof g.o.baseURL !== 'string') continue
              const call = CALLS[g.cap]
              const srv = makeServer(() => call.reply(''))
              await withFetch(srv.fetch, () => call.run(X, g.o))
              eq(srv.log.length, 1, 'requests')
              eq(srv.log[0].url, join1(g.expected.baseURL, call.path), 'URL')
              for (const [k, v] of Object.entries(g.expected.headers ?? {})) eq(srv.log[0].headers[k], v, `header ${k}`)
            }
            else {
              const [a, b] = [pool[op.a % pool.length], pool[op.b % pool.length]]
              pool.push({ obj: U.merge(a.obj, b.obj), caps: { ...a.caps, ...b.caps } })
              merged = true
            }
            verify(op.op)
          }
          t.cls(changed && 'changed', merged && 'merged')
        },
      },
    ],
  }
}
