// Package http stands in for net/http while the code under test is checked: requests are answered
// from a table set by the harness and recorded.
package http

import (
	"errors"
	"io"
	"strings"
	"time"
)

const (
	MethodGet           = "GET"
	StatusOK            = 200
	StatusNotFound      = 404
	StatusInternalError = 500
)

func StatusText(code int) string {
	switch code {
	case 200:
		return "OK"
	case 404:
		return "Not Found"
	}
	return ""
}

// Page is one answer.
type Page struct {
	Status int
	Body   string
}

var (
	Pages = map[string]Page{}
	Log   []string
)

func Reset() {
	Pages = map[string]Page{}
	Log = nil
}

type Response struct {
	Status     string
	StatusCode int
	Body       io.ReadCloser
}

type Client struct {
	Timeout time.Duration
}

var DefaultClient = &Client{}

func (c *Client) Get(url string) (*Response, error) { return Get(url) }

func Get(url string) (*Response, error) {
	Log = append(Log, url)
	p, ok := Pages[url]
	if !ok {
		return nil, errors.New("Get " + url + ": no route to host")
	}
	st := "200 OK"
	if p.Status != 200 {
		st = "404 Not Found"
	}
	return &Response{Status: st, StatusCode: p.Status, Body: io.NopCloser(strings.NewReader(p.Body))}, nil
}
