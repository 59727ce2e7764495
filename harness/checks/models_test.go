package checks

import (
	_ "github.com/trimmer-io/go-xmp/models"
	_ "github.com/trimmer-io/go-xmp/models/digikam"
)

// modelPrefixes lists the main namespace prefix of every bundled model.
func modelPrefixes() []string {
	return []string{"cc", "crs", "dc", "digiKam", "aux", "drone-dji", "exif", "exifEX", "id3", "iTunes", "iXML", "mp4", "pdf", "photomechanic", "photoshop", "qt", "riffinfo", "tiff", "xmp", "xmpBJ", "xmpDM", "xmpMM", "xmpRights", "xmpTPg", nsApp.GetName(), nsApp2.GetName(), nsApp3.GetName()}
}
