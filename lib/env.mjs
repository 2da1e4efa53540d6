// Deterministic execution environment for one generated case: virtual timers, hang detection,
// unhandled-rejection capture. No wall clock and no randomness is visible to the code under test.
const realSetTimeout = globalThis.setTimeout
const realSetInterval = globalThis.setInterval
const realSetImmediate = globalThis.setImmediate
const realNow = performance.now.bind(performance)
export const real = { setTimeout: realSetTimeout, setInterval: realSetInterval, now: realNow }

const immediate = () => new Promise(r => realSetImmediate(r))

export class Hang extends Error {
  constructor(m) { super(m); this.name = 'Hang' }
}

class Env {
  constructor() { this.reset() }

  reset() {
    this.now = 0
    this.queue = []
    this.seq = 0
    this.unhandled = []
    this.fired = 0
    this.sleeps = []
  }

  setTimeout(fn, ms = 0, ...args) {
    const t = { id: ++this.seq, due: this.now + Math.max(0, Number(ms) || 0), fn, args, dead: false }
    t.ref = t.unref = () => t
    t.hasRef = () => true
    t[Symbol.toPrimitive] = () => t.id
    this.queue.push(t)
    this.sleeps.push(Number(ms))
    return t
  }

  clearTimeout(t) {
    const id = t != null && typeof t === 'object' ? t.id : t
    this.queue = this.queue.filter(x => x.id !== id)
  }

  // harness-side sleeping on the same virtual clock (not counted as a sleep of the code under test)
  sleep(ms) {
    return new Promise((r) => { this.setTimeout(r, ms); this.sleeps.pop() })
  }

  at(ms, fn) {
    this.setTimeout(fn, ms - this.now); this.sleeps.pop()
  }

  fireNext() {
    let best
    for (const t of this.queue)
      if (best === undefined || t.due < best.due || (t.due === best.due && t.id < best.id)) best = t
    this.queue.splice(this.queue.indexOf(best), 1)
    if (best.due > this.now) this.now = best.due
    this.fired++
    best.fn(...best.args)
  }

  async drive(promise, what = 'case') {
    let done = false
    let failed = false
    let value
    promise.then((v) => { done = true; value = v }, (e) => { done = true; failed = true; value = e })
    let quiet = 0
    let idle = 0
    let since = realNow()
    while (!done) {
      await immediate()
      if (done) break
      if (this.queue.length > 0) {
        if (++quiet >= 3) {
          this.fireNext()
          quiet = 0
          idle = 0
          since = realNow()
          if (this.fired > 50000) throw new Hang(`${what}: runaway timers (over 50000 fired)`)
        }
        continue
      }
      if (++idle > 300 && realNow() - since > 400)
        throw new Hang(`${what}: never settled (no pending work left, promise still unsettled)`)
    }
    if (failed) throw value
    return value
  }

  // run until nothing is left to do; lets late unhandled rejections surface
  async quiesce() {
    let left = 4
    while (left > 0) {
      await immediate()
      if (this.queue.length > 0) {
        this.fireNext()
        left = 4
        if (this.fired > 50000) throw new Hang('runaway timers after the case ended')
      }
      else { left-- }
    }
  }
}

export const env = new Env()

export const install = () => {
  globalThis.setTimeout = (...a) => env.setTimeout(...a)
  globalThis.clearTimeout = t => env.clearTimeout(t)
  process.on('unhandledRejection', (reason) => { env.unhandled.push(reason) })
  process.on('uncaughtException', (err) => { env.unhandled.push(err) })
}
