package zzmodel

import (
	"archive/tar"
	"compress/gzip"
	"errors"
	"io"
)

// TarEntry is one entry of an archive.
type TarEntry struct {
	Header *tar.Header
	Data   []byte
}

// Tar are the entries of the archive that is read next. Reading the compressed
// data fails if BadGzip is set, going to entry TarFails fails if it is not
// negative, as does reading the contents of entry TarCut.
var (
	Tar      []TarEntry
	BadGzip  bool
	TarFails = -1
	TarCut   = -1

	tarAt   int
	tarLeft []byte
)

var errTar = errors.New("damaged archive")

//zz:for compress/gzip.NewReader
func gzipNewReader(io.Reader) (*gzip.Reader, error) {
	if BadGzip {
		return nil, errTar
	}
	return new(gzip.Reader), nil
}

//zz:for archive/tar.NewReader
func tarNewReader(io.Reader) *tar.Reader {
	tarAt, tarLeft = -1, nil
	return new(tar.Reader)
}

//zz:for (*archive/tar.Reader).Next
func tarNext(*tar.Reader) (*tar.Header, error) {
	tarAt++
	if tarAt == TarFails {
		return nil, errTar
	}
	if tarAt >= len(Tar) {
		tarLeft = nil
		return nil, io.EOF
	}
	tarLeft = Tar[tarAt].Data
	return Tar[tarAt].Header, nil
}

//zz:for (*archive/tar.Reader).Read
func tarRead(_ *tar.Reader, p []byte) (int, error) {
	if tarAt == TarCut {
		return 0, errTar
	}
	if len(tarLeft) == 0 {
		return 0, io.EOF
	}
	n := copy(p, tarLeft)
	tarLeft = tarLeft[n:]
	return n, nil
}
