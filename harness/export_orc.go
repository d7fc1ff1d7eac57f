// Overlaid into package orc as verif_export.go at build time; it is never part of /repo.
package orc

import (
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	orcio "github.com/patrickhuang888/goorc/orc/io"
)

func VerifNewWriter(schema *api.TypeDescription, opts config.WriterOptions, f orcio.File) (Writer, error) {
	w, err := newWriter(schema, &opts, f)
	if err != nil {
		return nil, err
	}
	return w, nil
}

func VerifNewReader(f orcio.File) (Reader, error) {
	r, err := newReader(f)
	if err != nil {
		return nil, err
	}
	return r, nil
}
