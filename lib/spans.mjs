// A recording OpenTelemetry setup: every span with how often it ended and what was written after its end.
export const makeTracing = (lib) => {
  const { trace, context, propagation, diag, DiagLogLevel } = lib.otelApi
  const state = { spans: [], complaints: [] }
  let provider
  diag.setLogger({ error: (...a) => state.complaints.push(a), warn: (...a) => state.complaints.push(a), info() {}, debug() {}, verbose() {} }, DiagLogLevel.WARN)
  return {
    state,
    on() {
      trace.disable(); context.disable(); propagation.disable()
      provider = new lib.otelNode.NodeTracerProvider({
        spanProcessors: [{
          onStart(span) { state.spans.push({ span, ends: 0, order: state.spans.length }) },
          onEnd(span) { const r = state.spans.find(s => s.span.spanContext().spanId === span.spanContext().spanId); r.ends++; r.endOrder = state.ended = (state.ended ?? 0) + 1 },
          forceFlush: async () => {}, shutdown: async () => {},
        }],
      })
      provider.register()
      state.spans = []
      state.complaints = []
    },
    off() { trace.disable(); context.disable(); propagation.disable(); state.spans = []; state.complaints = [] },
  }
}
