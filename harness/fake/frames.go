package fake

// Frame is one decoded websocket frame.
type Frame struct {
	Fin     bool
	Op      byte
	Payload []byte
}

// Client encodes a masked client frame, with the shortest length form.
func Client(fin bool, op byte, key []byte, payload []byte) []byte {
	return ClientRaw(b0(fin, op), len(payload), key, payload)
}

func b0(fin bool, op byte) byte {
	if fin {
		return 0x80 | op
	}
	return op
}

// ClientRaw encodes a masked frame with an arbitrary first byte and declared length.
func ClientRaw(b0 byte, n int, key []byte, payload []byte) []byte {
	b := []byte{b0}
	switch {
	case n < 126:
		b = append(b, 0x80|byte(n))
	case n < 65536:
		b = append(b, 0x80|126, byte(n>>8), byte(n))
	default:
		b = append(b, 0x80|127, byte(n>>56), byte(n>>48), byte(n>>40), byte(n>>32), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	b = append(b, key...)
	for i, p := range payload {
		b = append(b, p^key[i%4])
	}
	return b
}

// Decode is the reference decoder for a server's byte stream. It returns the
// complete frames, and whether the stream ends exactly at a frame boundary;
// bad names the first malformed thing it met.
func Decode(b []byte) (fs []Frame, rest int, bad string) {
	i := 0
	for i < len(b) {
		if len(b)-i < 2 {
			return fs, len(b) - i, ""
		}
		h, l := b[i], b[i+1]
		if h&0x70 != 0 {
			return fs, len(b) - i, "reserved bits set"
		}
		op := h & 15
		fin := h&0x80 != 0
		if l&0x80 != 0 {
			return fs, len(b) - i, "server frame is masked"
		}
		n := int(l & 0x7f)
		hd := 2
		switch {
		case n == 126:
			if len(b)-i < 4 {
				return fs, len(b) - i, ""
			}
			n = int(b[i+2])<<8 | int(b[i+3])
			hd = 4
			if n < 126 {
				return fs, len(b) - i, "length not minimally encoded"
			}
		case n == 127:
			if len(b)-i < 10 {
				return fs, len(b) - i, ""
			}
			n = 0
			for k := 0; k < 8; k++ {
				n = n<<8 | int(b[i+2+k])
			}
			hd = 10
			if n < 65536 {
				return fs, len(b) - i, "length not minimally encoded"
			}
		}
		switch op {
		case 0, 1, 2:
		case 8, 9, 10:
			if !fin {
				return fs, len(b) - i, "fragmented control frame"
			}
			if n > 125 {
				return fs, len(b) - i, "control frame too long"
			}
		default:
			return fs, len(b) - i, "reserved opcode"
		}
		if len(b)-i-hd < n {
			return fs, len(b) - i, ""
		}
		fs = append(fs, Frame{fin, op, b[i+hd : i+hd+n]})
		i += hd + n
	}
	return fs, 0, ""
}

// Msg is one reassembled data message.
type Msg struct {
	Op     byte
	Data   []byte
	Frames int
}

// Assemble checks message sequencing and returns the data messages, the
// control frames in order, and the number of fragments of an unfinished
// message at the end.
func Assemble(fs []Frame) (ms []Msg, ctl []Frame, open int, bad string) {
	var cur *Msg
	closed := false
	for _, f := range fs {
		if closed {
			return ms, ctl, open, "frame after the close frame"
		}
		switch f.Op {
		case 8:
			closed = true
			ctl = append(ctl, f)
		case 9, 10:
			ctl = append(ctl, f)
		case 1, 2:
			if cur != nil {
				return ms, ctl, open, "new message inside an unfinished one"
			}
			cur = &Msg{Op: f.Op, Data: append([]byte(nil), f.Payload...), Frames: 1}
		case 0:
			if cur == nil {
				return ms, ctl, open, "continuation without a message"
			}
			cur.Data = append(cur.Data, f.Payload...)
			cur.Frames++
		}
		if f.Op < 8 {
			open = cur.Frames
			if f.Fin {
				ms = append(ms, *cur)
				cur = nil
				open = 0
			}
		}
	}
	return ms, ctl, open, ""
}

// CloseCode is the status code of a close frame, 0 when it has none.
func CloseCode(f Frame) int {
	if len(f.Payload) < 2 {
		return 0
	}
	return int(f.Payload[0])<<8 | int(f.Payload[1])
}
