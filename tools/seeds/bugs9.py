from bugs8 import *
B("S01-phone-prefix","S01","a phone line that is a tel: URL",
  "The tel: in front of a phone number is lost.",
  [(SD,"	m.Phone = string(d.v)\n","	m.Phone = strings.TrimPrefix(string(d.v), \"tel:\")\n")],
 SDPMAIN+'''func main() {
	m, err := decode(head + "p=tel:+1-617-555-6011\\r\\nt=0 0\\r\\n")
	check(err == nil && m.Phone == "tel:+1-617-555-6011", "%v %+v", err, m)
}
''')
B("S01-media-format-star","S01","a media line whose format is an asterisk",
  "The format * of a media line is decoded as 0.",
  [(SD,"	d.m.Description = desc\n","	if \"*\" == desc.Format {\n		desc.Format = \"0\"\n	}\n	d.m.Description = desc\n")],
 SDPMAIN+'''func main() {
	m, err := decode(head + "t=0 0\\r\\nm=message 2855 TCP/MSRP *\\r\\n")
	check(err == nil && len(m.Medias) == 1 && m.Medias[0].Description.Format == "*", "%v %+v", err, m)
}
''')
B("S08-fmtp-last","S08","a media with two format parameter lines",
  "Attribute gives the last fmtp value instead of the first.",
  [(SD,"	return a[attribute][0]\n","	if \"fmtp\" == attribute {\n		return a[attribute][len(a[attribute])-1]\n	}\n	return a[attribute][0]\n")],
 SDPMAIN+'''func main() {
	m, err := decode(head + "t=0 0\\r\\nm=video 0 RTP/AVP 96 97\\r\\na=fmtp:96 a=1\\r\\na=fmtp:97 b=2\\r\\n")
	check(err == nil && m.Medias[0].Attribute("fmtp") == "96 a=1", "%v %+v", err, m)
}
''')
B("S06-stopped-dropped","S06","the same media line with port 0 twice in a row, the second section with nothing else",
  "A stopped media described like the one before it is left out.",
  [(SD,"	m.Medias = append(m.Medias, d.m)\n","	if k := len(m.Medias); k > 0 && 0 == d.m.Description.Port && m.Medias[k-1].Description == d.m.Description && len(d.m.Attributes) == 0 {\n		return nil\n	}\n	m.Medias = append(m.Medias, d.m)\n")],
 SDPMAIN+'''func main() {
	m, err := decode(head + "t=0 0\\r\\nm=audio 0 RTP/AVP 0\\r\\na=control:a\\r\\nm=audio 0 RTP/AVP 0\\r\\n")
	check(err == nil && len(m.Medias) == 2, "%v %+v", err, m)
}
''')
B("S07-weeks","S07","a repeat line with a unit RFC 4566 does not know",
  "1w is taken for an interval of a week.",
  [(SD,"	case 'd':\n","	case 'w':\n		unit = 7 * time.Hour * 24\n	case 'd':\n")],
 SDPMAIN+'''func main() {
	_, err := decode(head + "t=0 0\\r\\nr=1w 1h 0\\r\\n")
	check(err != nil, "1w is accepted")
	_, err = decode(head + "t=0 0\\r\\nr=7d 1h 0\\r\\n")
	check(err == nil, "7d: %v", err)
}
''')
B("S07-decimal-number","S07","a number with a fraction of .0",
  "1.0 is taken for a session version.",
  [(SD,"	*i, err = strconv.Atoi(b2s(v))\n","	*i, err = strconv.Atoi(strings.TrimSuffix(b2s(v), \".0\"))\n")],
 SDPMAIN+'''func main() {
	_, err := decode(head + "t=0 0\\r\\nm=audio 5004.0 RTP/AVP 0\\r\\n")
	check(err != nil, "port 5004.0 is accepted")
	_, err = decode(head + "t=0 0\\r\\nm=audio 5004 RTP/AVP 0\\r\\n")
	check(err == nil, "5004: %v", err)
}
''')
