// Entry point of every check.
//   node run.mjs <PROPERTY> [quick|thorough]     decide one property, write evidence/<PROPERTY>.json
//   node run.mjs --replay <file>                 re-run one shrunk counterexample
//   node run.mjs --build                         only check that the tree bundles
import { createHash } from 'node:crypto'
import { spawn } from 'node:child_process'
import { existsSync, mkdirSync, readFileSync, readdirSync, rmSync, writeFileSync } from 'node:fs'
import { dirname, join } from 'node:path'
import { fileURLToPath, pathToFileURL } from 'node:url'
import { build } from './lib/build.mjs'
import { env, install, real } from './lib/env.mjs'
import { fc } from './lib/kit.mjs'

const HERE = dirname(fileURLToPath(import.meta.url))
const BASE_SEED = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 1
const SHRINK_BUDGET_MS = 60_000
const SILENCE_MS = 90_000

const hash32 = s => createHash('sha256').update(s).digest().readInt32BE(0)

const load = async (id, libFile) => {
  // every *_API_KEY-like variable resolves to a recognisable value, so provider presets are testable
  const known = process.env
  process.env = new Proxy(known, {
    get: (t, k) => (typeof k === 'string' && /_(?:API_KEY|TOKEN|KEY)$/.test(k)) ? `env:${k}` : t[k],
  })
  if (typeof Uint8Array.fromBase64 !== 'function') {
    // baseline-2025 API the repository relies on; absent from Node 22
    Uint8Array.fromBase64 = (s, { alphabet = 'base64', lastChunkHandling = 'loose' } = {}) => {
      if (typeof s !== 'string') throw new TypeError('input is not a string')
      const text = s.replace(/[\t\n\f\r ]/g, '')
      if (!(alphabet === 'base64url' ? /^[\w-]*={0,2}$/ : /^[\d+/A-Za-z]*={0,2}$/).test(text)) throw new SyntaxError('Invalid character')
      const plain = text.replace(/=+$/, '').replaceAll('-', '+').replaceAll('_', '/')
      const rest = plain.length % 4
      const pads = text.length - plain.length
      if (rest === 1 && lastChunkHandling !== 'stop-before-partial') throw new SyntaxError('Incomplete last chunk')
      if (pads > 0 && pads !== (4 - rest) % 4) throw new SyntaxError('Wrong padding')
      if (lastChunkHandling === 'strict' && rest > 0 && pads === 0) throw new SyntaxError('Missing padding')
      const used = lastChunkHandling === 'stop-before-partial' && rest > 0 && pads === 0 ? plain.slice(0, -rest) : plain
      return Uint8Array.from(atob(used), c => c.charCodeAt(0))
    }
  }
  const lib = await import(pathToFileURL(libFile).href)
  const mod = await import(pathToFileURL(join(HERE, 'checks', `${id}.mjs`)).href)
  return mod.default({ lib, presetsFile: join(dirname(libFile), 'presets.mjs') })
}

const makeTracker = () => {
  const t = { nontrivialFlag: false, classes: [] }
  t.nontrivial = (c = true) => { if (c) t.nontrivialFlag = true }
  t.cls = (...names) => { for (const n of names) if (n) t.classes.push(n) }
  return t
}

const runCase = async (sub, value, tracker) => {
  env.reset()
  await env.drive(Promise.resolve().then(() => sub.check(value, tracker)))
  await env.quiesce()
  if (env.unhandled.length > 0 && !sub.allowUnhandled) {
    const r = env.unhandled[0]
    throw new Error(`unhandled rejection escaped to the process (${env.unhandled.length}): ${r instanceof Error ? `${r.name}: ${r.message}` : String(r)}`)
  }
}

// ---------------------------------------------------------------- worker: one shard of one property
const quiet = () => { for (const k of ['log', 'warn', 'error', 'info', 'debug']) console[k] = () => {} }
const worker = async (id, tier, shard, shards, libFile, only, seedOverride, pathOverride) => {
  install()
  quiet() // dependencies of the code under test print on odd input
  const beat = real.setInterval(() => process.send?.({ beat: true }), 1000)
  const def = await load(id, libFile)
  const result = { evaluations: 0, hashes: [], samples: [], classes: {}, subs: {}, violation: null }
  const seen = new Set()
  for (const sub of def.subs) {
    if (only && sub.name !== only) continue
    const total = Math.max(shards, Math.round((sub.runs ?? 100) * (tier === 'thorough' ? (sub.deep ?? 25) : 1)))
    const numRuns = sub.single ? (shard === 0 ? 1 : 0) : Math.ceil(total / shards)
    if (numRuns === 0) continue
    const seed = seedOverride ?? hash32(`${BASE_SEED}/${id}/${sub.name}/${shard}`)
    let failedAt = null
    let lastError = null
    let n = 0
    let nt = 0
    const prop = fc.asyncProperty(sub.arb(), async (value) => {
      if (failedAt !== null && real.now() - failedAt > SHRINK_BUDGET_MS) return
      if (n % 50 === 0) process.send?.({ at: { sub: sub.name, run: n, seed } })
      const t = makeTracker()
      try {
        await runCase(sub, value, t)
      }
      catch (e) {
        failedAt ??= real.now()
        lastError = e
        throw e
      }
      if (failedAt === null) {
        n++
        if (t.nontrivialFlag) {
          nt++
          const s = fc.stringify(value)
          const h = createHash('sha1').update(sub.name).update(s).digest('base64').slice(0, 16)
          if (!seen.has(h)) {
            seen.add(h)
            const mine = result.samples.filter(x => x.sub === sub.name).length
            if (mine < 2 && s.length < 1200 && n > 3) result.samples.push({ sub: sub.name, case: s })
          }
        }
        for (const c of t.classes) result.classes[`${sub.name}/${c}`] = (result.classes[`${sub.name}/${c}`] ?? 0) + 1
      }
    })
    const out = await fc.check(prop, { seed, numRuns, path: pathOverride, endOnFailure: pathOverride !== undefined, verbose: 0, examples: pathOverride === undefined && sub.examples && shard === 0 ? sub.examples() : [] })
    result.evaluations += n
    result.subs[sub.name] = { evaluations: n, nontrivial: nt }
    if (out.failed) {
      const err = out.errorInstance ?? lastError
      result.violation = {
        sub: sub.name, seed: out.seed, path: out.counterexamplePath, shrinks: out.numShrinks,
        counterexample: out.counterexample ? fc.stringify(out.counterexample[0]).slice(0, 20000) : null,
        error: err instanceof Error ? `${err.name}: ${err.message}`.slice(0, 6000) : String(err),
        stack: err instanceof Error ? String(err.stack).slice(0, 3000) : undefined,
      }
      break
    }
  }
  result.hashes = [...seen]
  result.rule = def.rule
  result.assumptions = def.assumptions
  clearInterval(beat)
  await new Promise(r => process.send({ result }, r))
  process.exit(0)
}

const spawnShard = (id, tier, k, shards, libFile, extra = []) => new Promise((resolve) => {
  const child = spawn(process.execPath, ['--max-old-space-size=3000', fileURLToPath(import.meta.url), '--worker', id, tier, String(k), String(shards), libFile, ...extra], {
    cwd: HERE, stdio: ['ignore', 'inherit', 'inherit', 'ipc'], env: { ...process.env, TZ: 'UTC' },
  })
  let at = null
  let result = null
  let last = real.now()
  let silent = false
  const watch = real.setInterval(() => {
    if (real.now() - last > SILENCE_MS) { silent = true; child.kill('SIGKILL') }
  }, 2000)
  child.on('message', (m) => {
    last = real.now()
    if (m.at) at = m.at
    if (m.result) result = m.result
  })
  child.on('exit', (code, signal) => {
    clearInterval(watch)
    if (result) return resolve(result)
    if (silent && at) return resolve({ evaluations: at.run, hashes: [], samples: [], classes: {}, subs: {}, violation: { sub: at.sub, seed: at.seed, path: undefined, counterexample: null, error: `Hang: the event loop was blocked for over ${SILENCE_MS / 1000}s within 50 cases after case ${at.run} of this seed` } })
    resolve({ crashed: `shard ${k} ended with code ${code} signal ${signal} at ${JSON.stringify(at)}` })
  })
})

const known = () => {
  const f = join(HERE, 'known-findings.txt')
  return existsSync(f)
    ? readFileSync(f, 'utf8').split('\n').filter(l => l.startsWith('finding: ')).map((l) => {
        const m = /^finding: property=(\S+) key=(\S+) (.*)$/.exec(l)
        return m && { property: m[1], key: m[2], what: m[3] }
      }).filter(Boolean)
    : []
}

const writeReplay = (id, v) => {
  const dir = join(HERE, 'replays')
  mkdirSync(dir, { recursive: true })
  const file = join(dir, `${id}-${v.sub.replaceAll(/\W+/g, '-')}.json`)
  writeFileSync(file, `${JSON.stringify({ property: id, ...v, rerun: `node /verif/run.mjs --replay ${file}` }, null, 2)}\n`)
  return file
}

const main = async (id, tier) => {
  const t0 = real.now()
  const dir = join(HERE, '.build', `${id}-${process.pid}`)
  const cleanup = () => rmSync(dir, { recursive: true, force: true })
  try {
    const libFile = await build(dir)
    const shards = Number.parseInt(process.env.VERIF_SHARDS ?? (tier === 'thorough' ? '8' : '6'), 10)
    const parts = await Promise.all(Array.from({ length: shards }, (_, k) => spawnShard(id, tier, k, shards, libFile)))
    const crashed = parts.filter(p => p.crashed)
    if (crashed.length > 0) {
      console.error(`check error: ${crashed.map(c => c.crashed).join('; ')}`)
      return 2
    }
    const distinct = new Set(parts.flatMap(p => p.hashes))
    const classes = {}
    const subs = {}
    for (const p of parts) {
      for (const [k, v] of Object.entries(p.classes)) classes[k] = (classes[k] ?? 0) + v
      for (const [k, v] of Object.entries(p.subs)) {
        subs[k] ??= { evaluations: 0, nontrivial: 0 }
        subs[k].evaluations += v.evaluations
        subs[k].nontrivial += v.nontrivial
      }
    }
    const samples = []
    for (const p of parts) for (const s of p.samples) if (samples.filter(x => x.sub === s.sub).length < 2) samples.push(s)
    const violations = parts.filter(p => p.violation).map(p => p.violation)
    const evaluations = parts.reduce((a, p) => a + p.evaluations, 0)
    mkdirSync(join(HERE, 'evidence'), { recursive: true })
    writeFileSync(join(HERE, 'evidence', `${id}.json`), `${JSON.stringify({
      property: id, tier, seed: BASE_SEED, level: 'exploration',
      coverage: { evaluations, distinct_nontrivial: distinct.size, rule: parts[0].rule, samples, per_check: subs, classes, shards },
      assumptions: parts[0].assumptions ?? [],
      wall_s: Math.round((real.now() - t0) / 10) / 100,
      violations: violations.length,
    }, null, 1)}\n`)
    if (violations.length > 0) {
      violations.sort((a, b) => (a.counterexample?.length ?? 1e9) - (b.counterexample?.length ?? 1e9))
      const v = violations[0]
      const file = writeReplay(id, v)
      console.log(`check ${id}/${v.sub}: ${v.error}`)
      console.log(`counterexample: ${(v.counterexample ?? '').slice(0, 2500)}`)
      console.log(`VIOLATION property=${id} replay=${file}`)
      return 1
    }
    for (const f of known().filter(f => f.property === id)) {
      const still = await probeFinding(id, f.key, libFile)
      if (still) console.log(`KNOWN-FINDING: property=${id} ${f.what}`)
    }
    if (distinct.size < 2) {
      console.error('check error: no non-trivial cases were generated')
      return 2
    }
    console.log(`OK property=${id} tier=${tier} evaluations=${evaluations} nontrivial=${distinct.size} wall=${((real.now() - t0) / 1000).toFixed(1)}s`)
    return 0
  }
  finally { cleanup() }
}

// a listed finding is demonstrated on the real code with its own fixed input
const probeFinding = (id, keyName, libFile) => new Promise((resolve) => {
  const child = spawn(process.execPath, [fileURLToPath(import.meta.url), '--probe', id, keyName, libFile], { cwd: HERE, stdio: ['ignore', 'ignore', 'inherit'] })
  child.on('exit', code => resolve(code === 1))
})

const argv = process.argv.slice(2)
if (argv[0] === '--worker') {
  const [, id, tier, k, n, libFile, only, seed, path] = argv
  await worker(id, tier, Number(k), Number(n), libFile, only || undefined, seed ? Number(seed) : undefined, path || undefined)
    .catch((e) => { process.stderr.write(`${e?.stack ?? e}\n`); process.exit(3) }) // a harness error, never a verdict
}
else if (argv[0] === '--probe') {
  install()
  quiet()
  const [, id, keyName, libFile] = argv
  const def = await load(id, libFile).catch((e) => { process.stderr.write(`${e?.stack ?? e}\n`); process.exit(3) })
  env.reset()
  const bad = await env.drive(Promise.resolve().then(() => def.findings[keyName]())).then(v => v, () => true)
  process.exit(bad ? 1 : 0)
}
else if (argv[0] === '--build') {
  const dir = join(HERE, '.build', `setup-${process.pid}`)
  try { await build(dir) }
  finally { rmSync(dir, { recursive: true, force: true }) }
  console.log('bundle ok')
}
else if (argv[0] === '--replay') {
  const r = JSON.parse(readFileSync(argv[1], 'utf8'))
  const dir = join(HERE, '.build', `replay-${process.pid}`)
  try {
    const libFile = await build(dir)
    const res = await spawnShard(r.property, 'quick', 0, 1, libFile, [r.sub, String(r.seed), r.path ?? ''])
    if (res.violation) {
      console.log(res.violation.error)
      console.log(res.violation.counterexample)
      console.log(`VIOLATION property=${r.property} replay=${argv[1]}`)
      process.exitCode = 1
    }
    else { console.log('the replayed case passes', res.crashed ?? '') }
  }
  finally { rmSync(dir, { recursive: true, force: true }) }
}
else {
  const id = argv[0]
  const tier = argv[1] ?? process.env.VERIF_TIER ?? 'quick'
  if (!id || !existsSync(join(HERE, 'checks', `${id}.mjs`))) {
    console.error(`usage: node run.mjs <${readdirSync(join(HERE, 'checks')).map(f => f.replace('.mjs', '')).join('|')}> [quick|thorough]`)
    process.exit(2)
  }
  // a build error or harness error ends with 2, never with a verdict
  process.exitCode = await main(id, tier).catch((e) => { console.error(e); return 2 })
}
