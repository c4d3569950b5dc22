// Package mux stands in for github.com/gorilla/mux, which is not available offline: exact paths only.
package mux

import "net/http"

type Router struct{ m map[string]http.HandlerFunc }
type Route struct {
	r    *Router
	path string
}

func NewRouter() *Router               { return &Router{map[string]http.HandlerFunc{}} }
func (r *Router) Path(p string) *Route { return &Route{r, p} }
func (r *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	r.r.m[r.path] = f
	return r
}
func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if f, ok := r.m[req.URL.Path]; ok {
		f(w, req)
		return
	}
	http.NotFound(w, req)
}
