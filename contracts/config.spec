package gen/config/cpp

func Config.ChannelMap(c) result
  props C14
  requires c != nil
  inv{m:map[string]string} configured: forall(i, 0, ITER, has(m, c.Channels[i].Name))
  inv{m:map[string]string} last entry: forallkey(n, m, exists(i, 0, ITER, c.Channels[i].Name == n && m[n] == c.Channels[i].Type && forall(j, i+1, ITER, c.Channels[j].Name != n)))
  ensures fresh(result) && result != nil
  ensures configured: forall(i, 0, len(c.Channels), has(result, c.Channels[i].Name))
  ensures last entry: forallkey(n, result, exists(i, 0, len(c.Channels), c.Channels[i].Name == n && result[n] == c.Channels[i].Type && forall(j, i+1, len(c.Channels), c.Channels[j].Name != n)))

func Config.Process(c, types) result
  props C14
  requires c != nil
  inv{m:map[string]ChannelType} one per channel: all(n, string, has(m, n) <==> DONE(n))
  inv{m:map[string]ChannelType} base: forallkey(n, m, same(m[n].Base, types[n]))
  inv{m:map[string]ChannelType, o:map[string]string} override: forallkey(n, m, m[n].Override == o[n])
  inv{b:bool, o:map[string]string} conversion: b <==> some(n, string, DONE(n) && has(o, n))
  ensures includes: len(result.Includes) == len(c.Includes) && forall(i, 0, len(c.Includes), result.Includes[i] == c.Includes[i])
  ensures every channel of the suite: forallkey(n, types, has(result.ChannelTypes, n))
  ensures only channels of the suite: forallkey(n, result.ChannelTypes, has(types, n))
  ensures base: forallkey(n, result.ChannelTypes, same(result.ChannelTypes[n].Base, types[n]))
  ensures override is the last entry: forallkey(n, result.ChannelTypes, forall(i, 0, len(c.Channels), c.Channels[i].Name == n && forall(j, i+1, len(c.Channels), c.Channels[j].Name != n) ==> result.ChannelTypes[n].Override == c.Channels[i].Type))
  ensures no override without entry: forallkey(n, result.ChannelTypes, forall(i, 0, len(c.Channels), c.Channels[i].Name != n) ==> result.ChannelTypes[n].Override == "")
  ensures conversion: result.HasConversion <==> existskey(n, types, exists(i, 0, len(c.Channels), c.Channels[i].Name == n))

func ChannelType.HasOverride(t) result
  props C14
  ensures result <==> t.Override != ""
