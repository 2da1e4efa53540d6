import { env } from '../lib/env.mjs'
import { baseStr, baseURLArb, clone, enc, eq, expectURL, fc, jsonReply, jsonVal, makeServer, ok, outcome, show, sseReply, sseText, strip, text, text1 } from '../lib/kit.mjs'
import { extraOptions, finalChunks, finalJSON, snake, snakeTop } from '../lib/endpoints.mjs'

const withFetch = async (fetch, fn) => {
  const saved = globalThis.fetch
  globalThis.fetch = fetch
  try { return await fn() }
  finally { globalThis.fetch = saved }
}
const b64 = u => Buffer.from(u).toString('base64')
const asText = s => new Response(enc.encode(s)).text() // the platform decides about byte order marks
const present = rec => fc.record(Object.fromEntries(Object.entries(rec).map(([k, a]) => [k, a])), { requiredKeys: [], noNullPrototype: true })
const headersOf = h => h.form === 'Headers' ? new Headers(h.h) : { ...h.h }
const fault = () => fc.oneof(
  { weight: 4, arbitrary: fc.record({ kind: fc.constant('status'), status: fc.constantFrom(400, 401, 403, 404, 429, 500, 503), body: fc.oneof(text(3), fc.constant('{"error":{"message":"bad"}}'), fc.constant('[]'), fc.constant('{"data":"AAEC"}'), fc.constant('')) }) },
  { weight: 1, arbitrary: fc.constant({ kind: 'network' }) },
  { weight: 1, arbitrary: fc.constantFrom('{', '', '<html>').map(body => ({ kind: 'malformed', body })) },
)

export default ({ lib }) => {
  const X = lib.xsai
  const P = { ...lib.providersCreate, ...lib.providersSpecialCreate }
  const messages = [{ role: 'user', content: 'q' }]
  const model = () => fc.oneof(text1(2), fc.constantFrom('gpt-4o', 'org/model:free'))
  const modelObj = () => fc.record({ id: text1(2), object: fc.constant('model'), created: fc.nat(), owned_by: text(1) })

  // every call a provider's capability is made for
  const CALLS = {
    chat: { path: 'chat/completions', reply: () => jsonReply(finalJSON()), run: o => X.generateText({ ...o, messages }) },
    chatStream: { path: 'chat/completions', reply: () => sseReply(sseText(finalChunks())), run: async (o) => { const r = X.streamText({ ...o, messages }); let s = ''; const all = outcome(Promise.all([r.steps, r.usage, r.messages, r.totalUsage])); for await (const c of r.textStream) s += c; const a = await all; if (!a.ok) throw a.error; return { text: s } } },
    embed: { path: 'embeddings', reply: () => jsonReply({ data: [{ embedding: [1, 2], index: 0, object: 'embedding' }], model: 'm', object: 'list', usage: { prompt_tokens: 1, total_tokens: 1 } }), run: o => X.embed({ ...o, input: 'q' }) },
    speech: { path: 'audio/speech', reply: () => ({ headers: {}, body: 'AUDIO' }), run: o => X.generateSpeech({ ...o, input: 'q', voice: 'v' }) },
    transcription: { path: 'audio/transcriptions', reply: () => jsonReply({ text: 'hi' }), run: o => X.generateTranscription({ ...o, file: new Blob([enc.encode('x')]) }) },
    model: { path: 'models', reply: () => jsonReply({ object: 'list', data: [{ id: 'a', object: 'model' }] }), run: o => X.listModels(o) },
  }
  const optsOf = (p, cap, m) => cap === 'model' ? p.model() : p[cap === 'chatStream' ? 'chat' : cap](m)
  const bodyModel = (cap, q) => cap === 'transcription' ? Object.fromEntries(q.form).model : q.json.model

  // a failing exchange must end as that failure
  const failing = async (f, run, what) => {
    const boom = new TypeError('network down')
    const srv = makeServer(() => f.kind === 'network' ? { reject: boom } : { status: f.kind === 'status' ? f.status : 200, headers: { 'content-type': 'application/json' }, body: f.body })
    const r = await withFetch(srv.fetch, () => outcome(run()))
    ok(!r.ok, () => `${what}: a failed reply (${show(f)}) was reported as ${show(r.value)}`)
    if (f.kind === 'network') ok(r.error === boom, () => `${what}: another error than the transport's: ${show(r.error)}`)
    if (f.kind === 'status') {
      ok(lib.shared.APICallError.isInstance(r.error), () => `${what}: not an APICallError: ${show(r.error)}`)
      eq([r.error.statusCode, r.error.responseBody], [f.status, await asText(f.body)], `${what}: status and body`)
    }
    eq(srv.log.length, 1, `${what}: requests`)
  }

  // a call stopped while the answer is awaited ends at once, with the caller's reason
  const aborting = async (at, reply, run, what) => {
    const reason = new Error('stopped')
    const ac = new AbortController()
    const srv = makeServer(() => ({ latency: 50, ...reply() }))
    if (at === 0) ac.abort(reason)
    else env.at(env.now + at, () => ac.abort(reason))
    const r = await withFetch(srv.fetch, () => outcome(run({ abortSignal: ac.signal })))
    ok(!r.ok && r.error === reason, () => `${what}: stopped after ${at} ms, but it ended as ${show(r)}`)
  }
  const stopAt = () => fc.option(fc.constantFrom(0, 1, 20, 49), { nil: null, freq: 3 })

  const routing = present({
    allowFallbacks: fc.boolean(), dataCollection: fc.constantFrom('allow', 'deny'), ignore: fc.array(text1(1), { maxLength: 2 }), order: fc.array(fc.constantFrom('Anthropic', 'OpenAI', 'deepInfra'), { maxLength: 3 }),
    quantizations: fc.array(fc.constantFrom('int4', 'fp8'), { maxLength: 2 }), requireParameters: fc.boolean(), sort: fc.constantFrom('price', 'throughput'), maxPrice: fc.constant({ promptPrice: 1 }), only: fc.constant(['x']),
  })
  const routerOptions = present({
    models: fc.array(text1(1), { maxLength: 3 }), provider: routing, transforms: fc.array(fc.constantFrom('middle-out', 'camelCase'), { maxLength: 2 }),
    extraHeaders: fc.record({ form: fc.constantFrom('record', 'Headers'), h: fc.dictionary(fc.constantFrom('HTTP-Referer', 'X-Title', 'x-own'), fc.constantFrom('https://site.example', 'My App', '1'), { maxKeys: 3, noNullPrototype: true }) }),
  })

  return {
    rule: 'A case is one provider with a special transport, generated options for it (routing, transforms, headers, deployment, token source, voice, format, extra options), and a good, malformed, failing or broken reply. Non-trivial: at least one option, or a fault. Oracle: the documented wire form computed from the options, the generated reply in the standard form, and the injected fault.',
    assumptions: ['these providers send through globalThis.fetch, which the check replaces by a scripted server', 'a caller who sets the same header twice by different means is not covered'],
    subs: [
      {
        name: 'openrouter', runs: 1500,
        arb: () => fc.record({ o: fc.option(routerOptions, { nil: undefined }), model: model(), base: fc.option(baseURLArb(), { nil: null }), stream: fc.boolean(), more: fc.option(extraOptions(), { nil: {} }), second: fc.boolean() }),
        check: async ({ o, model: m, base, stream, more, second }, t) => {
          t.nontrivial(o && Object.keys(o).length > 0); t.cls(...Object.keys(o ?? {}))
          const rest = Object.fromEntries(Object.entries(more).filter(([k]) => !['models', 'provider', 'transforms'].includes(k)))
          const provider = P.createOpenRouter('key', base === null ? undefined : baseStr(base))
          const given = o && { ...clone({ ...o, extraHeaders: undefined }), ...(o.extraHeaders ? { extraHeaders: headersOf(o.extraHeaders) } : {}) }
          const call = CALLS[stream ? 'chatStream' : 'chat']
          const srv = makeServer(() => call.reply())
          await withFetch(srv.fetch, async () => {
            const opts = provider.chat(m, given)
            if (second) await call.run({ ...provider.chat('other'), ...rest })
            await call.run({ ...opts, ...rest })
            // options already handed out are the caller's to change
            if (opts.headers) {
              if (opts.headers instanceof Headers) opts.headers.set('x-late', '1')
              else opts.headers['x-late'] = '1'
              const again = new Headers(provider.chat(m, given).headers)
              ok(!again.has('x-late'), 'changing options already obtained changed the options obtained later')
              ok(!new Headers(given.extraHeaders).has('x-late'), 'changing options already obtained changed the headers that were given')
            }
          })
          const q = srv.log.at(-1)
          const expected = {
            ...snakeTop(rest), messages, model: m, stream,
            ...(o?.models ? { models: o.models } : {}),
            ...(o?.transforms ? { transforms: o.transforms } : {}),
            ...(o?.provider ? { provider: Object.fromEntries(Object.entries(o.provider).map(([k, v]) => [snake(k), v])) } : {}),
          }
          const got = { ...q.json }
          delete got.stream_options
          delete expected.stream_options
          if (!stream) { delete got.stream; delete expected.stream }
          eq(strip(got), strip(JSON.parse(JSON.stringify(expected))), 'request body')
          eq(q.headers.authorization, 'Bearer key', 'authorization')
          for (const [k, v] of Object.entries(o?.extraHeaders?.h ?? {})) eq(q.headers[k.toLowerCase()], v, `header ${k}`)
          eq(q.url, base ? expectURL(base, 'chat/completions') : 'https://openrouter.ai/api/v1/chat/completions', 'URL')
          if (second) {
            eq({ ...srv.log[0].json, messages: undefined, model: undefined, stream: undefined, stream_options: undefined }, { ...JSON.parse(JSON.stringify(snakeTop(rest))), messages: undefined, model: undefined, stream: undefined, stream_options: undefined }, 'another call carries none of the options')
            for (const k of ['HTTP-Referer', 'X-Title', 'x-own']) eq(srv.log[0].headers[k.toLowerCase()], undefined, `another call's header ${k}`)
          }
        },
      },
      {
        name: 'anthropic', runs: 300,
        arb: () => fc.record({ thinking: fc.option(fc.record({ type: fc.constant('enabled'), budget_tokens: fc.nat({ max: 9999 }) }), { nil: undefined }), model: model(), stream: fc.boolean() }),
        check: async ({ thinking, model: m, stream }, t) => {
          t.nontrivial(thinking !== undefined)
          const call = CALLS[stream ? 'chatStream' : 'chat']
          const srv = makeServer(() => call.reply())
          await withFetch(srv.fetch, () => call.run(P.createAnthropic('key').chat(m, thinking && { thinking })))
          eq({ t: srv.log[0].json.thinking, m: srv.log[0].json.model, url: srv.log[0].url }, { t: thinking, m, url: 'https://api.anthropic.com/v1/chat/completions' }, 'request')
          const plain = makeServer(() => call.reply())
          await withFetch(plain.fetch, () => call.run(P.createAnthropic('key').chat(m)))
          eq(plain.log[0].json.thinking, undefined, 'thinking not asked for')
        },
      },
      {
        name: 'azure', runs: 2000,
        arb: () => fc.record({
          resource: fc.constantFrom('my-res', 'r2'), version: fc.option(fc.constantFrom('2024-05-01-preview', 'v1', 'a b&c=d'), { nil: undefined }),
          key: fc.record({ form: fc.constantFrom('static', 'sync', 'async'), tokens: fc.array(fc.constantFrom('t1', 't2', 't3'), { minLength: 1, maxLength: 3 }), failAt: fc.option(fc.nat({ max: 3 }), { nil: null }) }),
          calls: fc.array(fc.record({ cap: fc.constantFrom(...Object.keys(CALLS)), model: model(), abort: stopAt(), own: fc.constantFrom(null, null, 'auth', 'other'), ownForm: fc.constantFrom('record', 'Headers'), f: fc.option(fault(), { nil: null, freq: 3 }) }), { minLength: 1, maxLength: 5 }),
        }),
        check: async ({ resource, version, key, calls }, t) => {
          t.nontrivial(); t.cls(key.form, version !== undefined && 'version')
          let asked = 0
          const tokenError = new Error('no token')
          const source = () => {
            const i = asked++
            if (key.form !== 'static' && i === key.failAt) throw tokenError
            return key.tokens[i % key.tokens.length]
          }
          const apiKey = key.form === 'static' ? 'static-key' : key.form === 'sync' ? source : async () => source()
          const p = await P.createAzure({ apiKey, resourceName: resource, ...(version === undefined ? {} : { apiVersion: version }) })
          eq(asked, 0, 'tokens asked for before any call')
          for (const c of calls) {
            const { cap, own } = c
            const o = optsOf(p, cap, c.model)
            const mine = own === null ? {} : { headers: c.ownForm === 'record' || o.headers instanceof Headers ? { ...o.headers, ...(own === 'auth' ? { Authorization: 'Bearer mine' } : { 'x-own': '1' }) } : new Headers({ ...o.headers, ...(own === 'auth' ? { Authorization: 'Bearer mine' } : { 'x-own': '1' }) }) }
            const before = asked
            const willFail = key.form !== 'static' && asked === key.failAt && own !== 'auth'
            const boom = new TypeError('network down')
            const f = c.f && !(c.f.kind === 'malformed' && (cap === 'speech' || cap === 'chatStream')) ? c.f : null
            const srv = makeServer(() => f === null ? CALLS[cap].reply() : f.kind === 'network' ? { reject: boom } : { status: f.kind === 'status' ? f.status : 200, headers: { 'content-type': 'application/json' }, body: f.body })
            const r = await withFetch(srv.fetch, () => outcome(CALLS[cap].run({ ...o, ...mine })))
            if (willFail) {
              t.cls('token-failure')
              ok(!r.ok && r.error === tokenError, () => `${cap}: the failure of the token source was reported as ${show(r)}`)
              eq(srv.log.length, 0, 'requests without a token')
              continue
            }
            eq(srv.log.length, 1, `${cap}: requests`)
            const q = srv.log[0]
            const u = new URL(q.url)
            eq([u.origin + u.pathname, [...u.searchParams]], [`https://${resource}.services.ai.azure.com/models/${CALLS[cap].path}`, version === undefined ? [] : [['api-version', version]]], `${cap}: address`)
            if (cap !== 'model') eq(bodyModel(cap, q), c.model, `${cap}: deployment`)
            eq(q.headers['api-key'], key.form === 'static' ? 'static-key' : undefined, `${cap}: api-key header`)
            if (own === 'auth') eq(q.headers.authorization, 'Bearer mine', `${cap}: the caller's own authorization`)
            else eq(q.headers.authorization, `Bearer ${key.form === 'static' ? 'static-key' : key.tokens[before % key.tokens.length]}`, `${cap}: authorization`)
            if (own === 'other') eq(q.headers['x-own'], '1', `${cap}: the caller's header`)
            if (key.form !== 'static' && own !== 'auth') eq(asked, before + 1, `${cap}: tokens fetched for one request`)
            if (c.abort !== null && key.failAt === null) await aborting(c.abort, CALLS[cap].reply, more => CALLS[cap].run({ ...o, ...mine, ...more }), cap)
            if (f === null) { ok(r.ok, () => `${cap}: failed: ${show(r.error)}`); continue }
            ok(!r.ok, () => `${cap}: failed reply ${show(f)} reported as ${show(r.value)}`)
            if (f.kind === 'network') ok(r.error === boom, `${cap}: not the transport's error`)
            if (f.kind === 'status') eq([r.error.code, r.error.statusCode, r.error.responseBody], ['api_call_error', f.status, await asText(f.body)], `${cap}: error`)
          }
        },
      },
      {
        name: 'workers', runs: 200,
        arb: () => fc.record({ cap: fc.constantFrom('chat', 'chatStream', 'embed'), account: fc.constantFrom('acc', '023e105f4ecef8ad9ca31a8372d0c353'), key: fc.constantFrom('k1', 'tok en'), model: model(), f: fc.option(fault(), { nil: null, freq: 3 }), abort: stopAt() }),
        check: async ({ cap, account, key, model: m, f, abort }, t) => {
          t.nontrivial()
          const o = optsOf(P.createWorkersAI(key, account), cap, m)
          const srv = makeServer(() => CALLS[cap].reply())
          await withFetch(srv.fetch, () => CALLS[cap].run(o))
          eq([srv.log[0].url, srv.log[0].headers.authorization, bodyModel(cap, srv.log[0])], [`https://api.cloudflare.com/client/v4/accounts/${account}/ai/v1/${CALLS[cap].path}`, `Bearer ${key}`, m], 'request')
          if (abort !== null) await aborting(abort, CALLS[cap].reply, more => CALLS[cap].run({ ...o, ...more }), cap)
          if (f && !(f.kind === 'malformed' && cap === 'chatStream')) await failing(f, () => CALLS[cap].run(o), cap)
        },
      },
      {
        name: 'player2', runs: 2000,
        arb: () => fc.record({
          base: fc.option(baseURLArb(), { nil: null }), game: fc.option(fc.constantFrom('g1', 'my game', ''), { nil: undefined }), cap: fc.constantFrom('speech', 'speech', 'speech', 'chat', 'chatStream'),
          o: present({ speed: fc.constantFrom(0.25, 1, 2, 0), responseFormat: fc.constantFrom('mp3', 'wav', 'pcm'), playInApp: fc.boolean(), voiceGender: fc.constantFrom('male'), someNewOption: jsonVal(1) }),
          voice: fc.oneof(text1(2), fc.constant('01955d76-ed5b-73e0-a88d-cbeb3c5b499d'), fc.constant(undefined)), input: text(6), model: model(), audio: fc.uint8Array({ maxLength: 60 }), header: fc.boolean(), f: fc.option(fault(), { nil: null, freq: 3 }), abort: stopAt(),
        }),
        check: async ({ base, game, cap, o, voice, input, model: m, audio, header, f, abort }, t) => {
          t.nontrivial(cap === 'speech' || f !== null); t.cls(cap)
          const root = base === null ? undefined : baseStr(base)
          const url = path => base === null ? `http://localhost:4315/v1/${path}` : expectURL(base, path)
          const p = game === undefined ? P.createPlayer2(root) : P.createPlayer2(root, game)
          const opts = cap === 'speech' ? p.speech(m) : p.chat(m)
          const own = header ? { headers: { ...opts.headers, 'x-own': '1' } } : {}
          const srv = makeServer(() => reply())
          const reply = () => cap === 'speech' ? jsonReply({ data: b64(audio) }) : CALLS[cap].reply()
          const run = more => cap === 'speech' ? X.generateSpeech({ ...opts, ...own, ...clone(o), input, voice, ...more }) : CALLS[cap].run({ ...opts, ...own, ...more })
          const r = await withFetch(srv.fetch, () => outcome(run()))
          ok(r.ok, () => `${cap}: ${show(r.error)}`)
          const q = srv.log[0]
          eq(q.headers['player2-game-key'], game ?? 'xsai', 'game key')
          if (header) eq(q.headers['x-own'], '1', 'the caller\'s header')
          if (cap === 'speech') {
            eq([q.url, q.method], [url('tts/speak'), 'POST'], 'address')
            ok(Buffer.from(r.value).equals(Buffer.from(audio)), () => `audio ${show(audio)} became ${show(new Uint8Array(r.value))}`)
            const { speed, responseFormat, ...more } = o
            eq(q.json, JSON.parse(JSON.stringify({ play_in_app: false, ...snakeTop(more), model: m, text: input, voice_ids: voice === undefined ? [] : [voice], speed: speed ?? 1, audio_format: responseFormat ?? q.json.audio_format })), 'request body')
            if (responseFormat === undefined) ok(q.json.audio_format === undefined || typeof q.json.audio_format === 'string', 'format')
          }
          else { eq([q.url, q.json.model], [url('chat/completions'), m], 'chat request') }
          if (abort !== null) await aborting(abort, reply, run, cap)
          if (f && !(f.kind === 'malformed' && cap === 'chatStream')) await failing(f, run, cap)
        },
      },
      {
        name: 'modelLists', runs: 1200,
        arb: () => fc.record({ name: fc.constantFrom('createTogetherAI', 'createFeatherless'), list: fc.array(modelObj(), { maxLength: 4 }), one: modelObj(), bare: fc.boolean(), model: fc.constantFrom('m', 'org/model'), own: fc.boolean(), f: fc.option(fault(), { nil: null }), abort: stopAt() }),
        check: async ({ name, list, one, bare, model: m, own, f, abort }, t) => {
          t.nontrivial(); t.cls(bare ? 'bare' : 'standard', f?.kind)
          const p = P[name]('key')
          const all = more => X.listModels({ ...p.model(), ...(own ? { headers: { 'x-own': '1' } } : {}), ...more })
          const each = more => X.retrieveModel({ ...p.model(), ...(own ? { headers: { 'x-own': '1' } } : {}), ...more, model: m })
          const lists = makeServer(() => jsonReply(bare ? list : { object: 'list', data: list }))
          eq(await withFetch(lists.fetch, () => all()), list, 'models')
          const single = makeServer(() => jsonReply(one))
          eq(await withFetch(single.fetch, () => each()), one, 'one model')
          eq([lists.log[0].headers.authorization, single.log[0].headers.authorization], ['Bearer key', 'Bearer key'], 'key')
          const root = name === 'createFeatherless' ? 'https://api.featherless.ai/v1/models' : 'https://api.together.xyz/v1/models'
          eq([lists, single].map(s => s.log.map(q => [q.method, q.url])), [[['GET', root]], [['GET', `${root}/${m}`]]], 'addresses')
          eq([lists, single].map(s => s.log[0].headers['x-own']), own ? ['1', '1'] : [undefined, undefined], 'the caller\'s header')
          if (abort !== null) {
            await aborting(abort, () => jsonReply(bare ? list : { object: 'list', data: list }), all, 'listModels')
            await aborting(abort, () => jsonReply(one), each, 'retrieveModel')
          }
          if (f) {
            await failing(f, () => all(), 'listModels')
            await failing(f, () => each(), 'retrieveModel')
          }
        },
      },
    ],
  }
}
