// Package jaegerm replaces the reflection in jaeger's metrics set-up under the engine.
package jaegerm

import (
	"github.com/uber/jaeger-client-go"
	"github.com/uber/jaeger-lib/metrics"
)

// NewMetrics asks the factory for every metric, as metrics.Init does from the struct tags.
func NewMetrics(f metrics.Factory, tags map[string]string) *jaeger.Metrics {
	if f == nil {
		f = metrics.NullFactory
	}
	f = f.Namespace(metrics.NSOptions{Name: "jaeger"}).Namespace(metrics.NSOptions{Name: "tracer"})
	return &jaeger.Metrics{
		TracesStartedSampled:             f.Counter(metrics.Options{Name: "TracesStartedSampled"}),
		TracesStartedNotSampled:          f.Counter(metrics.Options{Name: "TracesStartedNotSampled"}),
		TracesStartedDelayedSampling:     f.Counter(metrics.Options{Name: "TracesStartedDelayedSampling"}),
		TracesJoinedSampled:              f.Counter(metrics.Options{Name: "TracesJoinedSampled"}),
		TracesJoinedNotSampled:           f.Counter(metrics.Options{Name: "TracesJoinedNotSampled"}),
		SpansStartedSampled:              f.Counter(metrics.Options{Name: "SpansStartedSampled"}),
		SpansStartedNotSampled:           f.Counter(metrics.Options{Name: "SpansStartedNotSampled"}),
		SpansStartedDelayedSampling:      f.Counter(metrics.Options{Name: "SpansStartedDelayedSampling"}),
		SpansFinishedSampled:             f.Counter(metrics.Options{Name: "SpansFinishedSampled"}),
		SpansFinishedNotSampled:          f.Counter(metrics.Options{Name: "SpansFinishedNotSampled"}),
		SpansFinishedDelayedSampling:     f.Counter(metrics.Options{Name: "SpansFinishedDelayedSampling"}),
		DecodingErrors:                   f.Counter(metrics.Options{Name: "DecodingErrors"}),
		ReporterSuccess:                  f.Counter(metrics.Options{Name: "ReporterSuccess"}),
		ReporterFailure:                  f.Counter(metrics.Options{Name: "ReporterFailure"}),
		ReporterDropped:                  f.Counter(metrics.Options{Name: "ReporterDropped"}),
		ReporterQueueLength:              f.Gauge(metrics.Options{Name: "ReporterQueueLength"}),
		SamplerRetrieved:                 f.Counter(metrics.Options{Name: "SamplerRetrieved"}),
		SamplerQueryFailure:              f.Counter(metrics.Options{Name: "SamplerQueryFailure"}),
		SamplerUpdated:                   f.Counter(metrics.Options{Name: "SamplerUpdated"}),
		SamplerUpdateFailure:             f.Counter(metrics.Options{Name: "SamplerUpdateFailure"}),
		BaggageUpdateSuccess:             f.Counter(metrics.Options{Name: "BaggageUpdateSuccess"}),
		BaggageUpdateFailure:             f.Counter(metrics.Options{Name: "BaggageUpdateFailure"}),
		BaggageTruncate:                  f.Counter(metrics.Options{Name: "BaggageTruncate"}),
		BaggageRestrictionsUpdateSuccess: f.Counter(metrics.Options{Name: "BaggageRestrictionsUpdateSuccess"}),
		BaggageRestrictionsUpdateFailure: f.Counter(metrics.Options{Name: "BaggageRestrictionsUpdateFailure"}),
		ThrottledDebugSpans:              f.Counter(metrics.Options{Name: "ThrottledDebugSpans"}),
		ThrottlerUpdateSuccess:           f.Counter(metrics.Options{Name: "ThrottlerUpdateSuccess"}),
		ThrottlerUpdateFailure:           f.Counter(metrics.Options{Name: "ThrottlerUpdateFailure"}),
	}
}
