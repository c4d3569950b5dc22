// Package standin has servers that speak the protocols of redis, memcached and RabbitMQ as far as the
// plugins under test use them. Their behaviour is that of the documentation of the real servers.
package standin

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
)

// Listener accepts connections until it is stopped, which closes them too.
type Listener struct {
	Addr  string
	l     net.Listener
	mu    sync.Mutex
	conns map[net.Conn]bool
	down  bool
}

func listen(serve func(net.Conn)) (*Listener, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &Listener{Addr: l.Addr().String(), l: l, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			if s.down {
				c.Close()
			}
			s.conns[c] = true
			s.mu.Unlock()
			go func() {
				serve(c)
				c.Close()
				s.mu.Lock()
				delete(s.conns, c)
				s.mu.Unlock()
			}()
		}
	}()
	return s, nil
}

func (s *Listener) Stop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.down = true
	s.l.Close()
	for c := range s.conns {
		c.Close()
	}
}

// Kick closes the connections there are.
func (s *Listener) Kick() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		c.Close()
	}
}

// KV is the data of a key-value server. Every command on a key named Fail is answered with an error.
type KV struct {
	*Listener
	mu   sync.Mutex
	data map[string]string
}

const Fail = "fail"

func Redis() (*KV, error) {
	kv := &KV{data: map[string]string{}}
	l, err := listen(kv.redis)
	kv.Listener = l
	return kv, err
}

func Memcached() (*KV, error) {
	kv := &KV{data: map[string]string{}}
	l, err := listen(kv.memcached)
	kv.Listener = l
	return kv, err
}

func (kv *KV) redis(c net.Conn) {
	r := bufio.NewReader(c)
	for {
		args, err := respArgs(r)
		if err != nil {
			return
		}
		if _, err := c.Write([]byte(kv.redisCommand(args))); err != nil {
			return
		}
	}
}

func respLine(r *bufio.Reader) (string, error) {
	s, err := r.ReadString('\n')
	return strings.TrimSuffix(s, "\r\n"), err
}

func respArgs(r *bufio.Reader) ([]string, error) {
	s, err := respLine(r)
	if err != nil {
		return nil, err
	}
	if len(s) == 0 || s[0] != '*' {
		return nil, fmt.Errorf("no array: %q", s)
	}
	n, err := strconv.Atoi(s[1:])
	if err != nil {
		return nil, err
	}
	var args []string
	for i := 0; i < n; i++ {
		s, err := respLine(r)
		if err != nil {
			return nil, err
		}
		l, err := strconv.Atoi(s[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:l]))
	}
	return args, nil
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (kv *KV) redisCommand(args []string) string {
	if len(args) == 0 {
		return "-ERR empty\r\n"
	}
	kv.mu.Lock()
	defer kv.mu.Unlock()
	cmd, args := strings.ToUpper(args[0]), args[1:]
	wrong := fmt.Sprintf("-ERR wrong number of arguments for '%s' command\r\n", strings.ToLower(cmd))
	for i, k := range args {
		if k == Fail && (i == 0 || cmd == "MGET" || cmd == "DEL" || cmd == "MSET" && i%2 == 0) {
			return "-ERR something is wrong\r\n"
		}
	}
	switch cmd {
	case "PING":
		return "+PONG\r\n"
	case "SET":
		if len(args) < 2 {
			return wrong
		}
		if len(args) > 2 && strings.ToUpper(args[2]) != "KEEPTTL" {
			return "-ERR syntax error\r\n"
		}
		kv.data[args[0]] = args[1]
		return "+OK\r\n"
	case "GET":
		if len(args) != 1 {
			return wrong
		}
		v, ok := kv.data[args[0]]
		if !ok {
			return "$-1\r\n"
		}
		return bulk(v)
	case "DEL", "UNLINK", "EXISTS":
		if len(args) == 0 {
			return wrong
		}
		n := 0
		for _, k := range args {
			if _, ok := kv.data[k]; ok {
				n++
				if cmd != "EXISTS" {
					delete(kv.data, k)
				}
			}
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "INCR", "INCRBY":
		by := int64(1)
		if cmd == "INCRBY" {
			if len(args) != 2 {
				return wrong
			}
			by, _ = strconv.ParseInt(args[1], 10, 64)
		} else if len(args) != 1 {
			return wrong
		}
		v, ok := kv.data[args[0]]
		if !ok {
			v = "0"
		}
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		kv.data[args[0]] = strconv.FormatInt(n+by, 10)
		return fmt.Sprintf(":%d\r\n", n+by)
	case "MGET":
		if len(args) == 0 {
			return wrong
		}
		out := fmt.Sprintf("*%d\r\n", len(args))
		for _, k := range args {
			if v, ok := kv.data[k]; ok {
				out += bulk(v)
			} else {
				out += "$-1\r\n"
			}
		}
		return out
	case "MSET":
		if len(args) == 0 || len(args)%2 != 0 {
			return wrong
		}
		for i := 0; i < len(args); i += 2 {
			kv.data[args[i]] = args[i+1]
		}
		return "+OK\r\n"
	}
	return fmt.Sprintf("-ERR unknown command '%s'\r\n", cmd)
}

func (kv *KV) memcached(c net.Conn) {
	r := bufio.NewReader(c)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			c.Write([]byte("ERROR\r\n"))
			continue
		}
		data := ""
		switch f[0] {
		case "set", "add", "replace", "cas", "append", "prepend":
			if len(f) < 5 {
				c.Write([]byte("ERROR\r\n"))
				continue
			}
			n, err := strconv.Atoi(f[4])
			if err != nil {
				return
			}
			b := make([]byte, n+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			data = string(b[:n])
		}
		if _, err := c.Write([]byte(kv.memCommand(f, data))); err != nil {
			return
		}
	}
}

func (kv *KV) memCommand(f []string, data string) string {
	kv.mu.Lock()
	defer kv.mu.Unlock()
	cmd, args := f[0], f[1:]
	for i, k := range args {
		if k == Fail && (i == 0 || cmd == "get" || cmd == "gets") {
			return "SERVER_ERROR something is wrong\r\n"
		}
	}
	switch cmd {
	case "version":
		return "VERSION 1.6.0\r\n"
	case "get", "gets":
		if len(args) == 0 {
			return "ERROR\r\n"
		}
		out := ""
		for _, k := range args {
			if v, ok := kv.data[k]; ok {
				out += fmt.Sprintf("VALUE %s 0 %d 1\r\n%s\r\n", k, len(v), v)
			}
		}
		return out + "END\r\n"
	case "set", "add", "replace", "append", "prepend":
		old, ok := kv.data[args[0]]
		switch {
		case cmd == "add" && ok, cmd != "add" && cmd != "set" && !ok:
			return "NOT_STORED\r\n"
		case cmd == "append":
			data = old + data
		case cmd == "prepend":
			data = data + old
		}
		kv.data[args[0]] = data
		return "STORED\r\n"
	case "delete":
		if _, ok := kv.data[args[0]]; !ok {
			return "NOT_FOUND\r\n"
		}
		delete(kv.data, args[0])
		return "DELETED\r\n"
	case "incr":
		v, ok := kv.data[args[0]]
		if !ok {
			return "NOT_FOUND\r\n"
		}
		n, err := strconv.ParseUint(v, 10, 64)
		if err != nil {
			return "CLIENT_ERROR cannot increment or decrement non-numeric value\r\n"
		}
		by, err := strconv.ParseUint(args[1], 10, 64)
		if err != nil {
			return "CLIENT_ERROR invalid numeric delta argument\r\n"
		}
		kv.data[args[0]] = strconv.FormatUint(n+by, 10)
		return kv.data[args[0]] + "\r\n"
	}
	return "ERROR\r\n"
}
