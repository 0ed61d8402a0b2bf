package main

import "strings"

// tableTags are the languages of the orthography table of the library.
var tableTags = strings.Fields(`
aa ab af agr ak am an anp ar as ast av ay ayc az-az az-ir ba be bem ber-dz ber-ma bg bh bhb bho bi bin bm bn
bo br brx bs bua byn ca ce ch chm chr ckb cmn co cop crh cs csb cu cv cy da de doi dsb dv dz ee el en eo es et
eu fa fat ff fi fil fj fo fr fur fy ga gd gez gl gn got gu gv ha hak haw he hi hif hne ho hr hsb ht hu hy hz
ia id ie ig ii ik io is it iu ja jv ka kaa kab ki kj kk kl km kn ko kok kr ks ku-am ku-iq ku-ir ku-tr kum kv
kw kwm ky la lah lb lez lg li lij ln lo lt lv lzh mag mai mfe mg mh mhr mi miq mjw mk ml mn-cn mn-mn mni mnw
mo mr ms mt my na nan nb nds ne ng nhn niu nl nn no nqo nr nso nv ny oc om or os ota pa pa-pk pap-an pap-aw pl
ps-af ps-pk pt qu quz raj rif rm rn ro ru rw sa sah sat sc sco sd se sel sg sgs sh shn shs si sid sk sl sm sma
smj smn sms sn so sq sr ss st su sv sw syr szl ta tcy te tg th the ti-er ti-et tig tk tl tn to tpi tr ts tt tw
ty tyv ug uk und-zmth und-zsye unm ur uz ve vi vo vot wa wae wal wen wo xh yap yi yo yue yuw za zh-cn zh-hk
zh-mo zh-sg zh-tw zu
`)
