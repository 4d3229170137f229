package main

import (
	"regexp"
	"strings"
)

// ---- reference parser of docker image references ----

type imageRef struct {
	domain, path, tag, digest string
}

var (
	reDomain = regexp.MustCompile(`\A(?:[a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9-]*[a-zA-Z0-9])(?:\.(?:[a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9-]*[a-zA-Z0-9]))*(?::[0-9]+)?\z`)
	rePath   = regexp.MustCompile(`\A[a-z0-9]+(?:(?:[._]|__|-+)[a-z0-9]+)*\z`)
	reTag    = regexp.MustCompile(`\A[A-Za-z0-9_][A-Za-z0-9_.-]{0,127}\z`)
	reDigest = regexp.MustCompile(`\A[A-Za-z][A-Za-z0-9]*(?:[-_+.][A-Za-z][A-Za-z0-9]*)*:[0-9a-fA-F]{32,}\z`)
	reHexID  = regexp.MustCompile(`\A[a-f0-9]{64}\z`)
)

// parseRef reads an image reference the way docker does.
func parseRef(s string) (r imageRef, ok bool) {
	// identifiers and digests are not names.
	if s == "" || reHexID.MatchString(strings.TrimPrefix(s, "sha256:")) {
		return r, false
	}
	rest := s
	if i := strings.Index(rest, "@"); i >= 0 {
		r.digest = rest[i+1:]
		rest = rest[:i]
		if !reDigest.MatchString(r.digest) || strings.HasPrefix(r.digest, "sha256:") && len(r.digest) != 7+64 {
			return r, false
		}
	}
	slash := strings.LastIndex(rest, "/")
	if i := strings.LastIndex(rest, ":"); i > slash {
		r.tag = rest[i+1:]
		rest = rest[:i]
		if !reTag.MatchString(r.tag) {
			return r, false
		}
	}
	r.domain, r.path = "docker.io", rest
	if i := strings.Index(rest, "/"); i >= 0 {
		first := rest[:i]
		if strings.ContainsAny(first, ".:") || first == "localhost" {
			r.domain, r.path = first, rest[i+1:]
		}
	}
	if r.domain == "index.docker.io" {
		r.domain = "docker.io"
	}
	if r.domain == "docker.io" && !strings.Contains(r.path, "/") {
		r.path = "library/" + r.path
	}
	if !reDomain.MatchString(r.domain) {
		return r, false
	}
	for _, c := range strings.Split(r.path, "/") {
		if !rePath.MatchString(c) {
			return r, false
		}
	}
	if len(r.domain)+1+len(r.path) > 255 {
		return r, false
	}
	return r, true
}
