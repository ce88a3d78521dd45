package tracer

import opentracing "github.com/opentracing/opentracing-go"

// VerifTracer is the tracer BuildWithOption returns, on another tracing library.
func VerifTracer(t opentracing.Tracer, factories ...TracerFactory) ITracer {
	jt := &jaegerTracing{tracing: t, factory: map[string]SpanFactory{}}
	for _, f := range factories {
		jt.factory[f.Name] = f.Factory
	}
	return jt
}
