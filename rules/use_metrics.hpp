#include "metrics.hpp"
template class ErrorMetrics<false>; template class ErrorMetrics<true>; template class KappaMetrics<3,false>; template class KappaMetrics<2,true>;
namespace use_metrics { template<class M> double all_queries(M* m){ return m->score()+m->score(true)+m->score(false,3)+m->ratio(); } template<class M> void all_updates(M* m,int a,int b){ M o; o=*m; *m=o; M c(*m); (void)c; m->update(a,b); m->increase_error(); m->increase_error(a); m->reset(); } }
extern "C" {
double Q_metrics_error(ErrorMetrics<false>* m){ return use_metrics::all_queries(m); }
double Q_metrics_error_ratio(ErrorMetrics<true>* m){ return use_metrics::all_queries(m); }
double Q_metrics_kappa(KappaMetrics<3,false>* m){ return use_metrics::all_queries(m)+m->kappa()+m->kappa<true>(); }
double Q_metrics_kappa_ratio(KappaMetrics<2,true>* m){ return use_metrics::all_queries(m)+m->kappa()+m->kappa<true>(); }
double Q_metrics_none(NoMetrics* m){ return use_metrics::all_queries(m); }
double Q_metrics_reservoir(ReservoirSamplingMetrics* m){ return use_metrics::all_queries(m); }
void O_metrics_error(ErrorMetrics<false>* m,int a,int b){ use_metrics::all_updates(m,a,b); }
void O_metrics_error_ratio(ErrorMetrics<true>* m,int a,int b){ use_metrics::all_updates(m,a,b); }
void O_metrics_kappa(KappaMetrics<3,false>* m,int a,int b){ use_metrics::all_updates(m,a,b); }
void O_metrics_kappa_ratio(KappaMetrics<2,true>* m,int a,int b){ use_metrics::all_updates(m,a,b); }
void O_metrics_none(NoMetrics* m,int a,int b){ use_metrics::all_updates(m,a,b); }
void O_metrics_reservoir(ReservoirSamplingMetrics* m,int a,int b){ use_metrics::all_updates(m,a,b); }
}
