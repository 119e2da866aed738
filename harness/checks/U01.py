"""U01: the files embedded in some data (spec/Subfile.tla)."""
import os
import subfile_h as sh
from lib import REPO

# Samples whose signature is at their beginning or so, with their parser
SAMPLES = {
    '10min.mkv': 'matroska',
    '25min.aifc': 'aiff',
    '7zip.chm': 'chm',
    'archive.7z': '7zip',
    'arp_dns_ping_dns.tcpdump': 'tcpdump',
    'article01.bmp': 'bmp',
    'audio_8khz_8bit_ulaw_4s39.au': 'sun_next_snd',
    'breakdance.flv': 'flv',
    'bsize-1024-isize-1024.ext2': 'ext2',
    'bsize-2048-isize-512.ext2': 'ext2',
    'bsize-4096-isize-128.ext2': 'ext2',
    'canon.raw.cr2': 'cr2',
    'cd_0008_5C48_1m53s.cda': 'riff',
    'cercle.exe': 'exe',
    'claque-beignet.swf': 'swf',
    'com.apple.pkg.BaseSystemResources.bom': 'bom_store',
    'cross.xcf': 'xcf',
    'debian-31r4-i386-binary-1.iso.torrent': 'torrent',
    'default_mount_opts.ext2': 'ext2',
    'dell8.fat16': 'fat16',
    'dontyou.xm': 'fasttracker2',
    'eula.exe': 'exe',
    'firstrun.rm': 'real_media',
    'free-software-song.midi.bz2': 'bzip2',
    'ftp-0.17-537.i586.rpm': 'rpm',
    'georgia.cab': 'cab',
    'get-versions.64bit.little.elf': 'elf',
    'globe.wmf': 'wmf',
    'gps.jpg': 'jpeg',
    'grasslogo_vector.emf': 'wmf',
    'green_fire.jpg': 'jpeg',
    'hachoir-core.rar': 'rar',
    'hachoir.org.sxw': 'zip',
    'hotel_california.flac': 'flac',
    'india_map.gif': 'gif',
    'indiana.mid': 'midi',
    'jpeg.exif.photoshop.jpg': 'jpeg',
    'kde_click.wav': 'riff',
    'kde_haypo_corner.bmp': 'bmp',
    'ladouce_1h15.wav': 'riff',
    'linux_swap_9pages': 'linux_swap',
    'logo-kubuntu.png': 'png',
    'macos_10.12.macho': 'macho_fat',
    'macos_10.5.macho': 'macho_fat',
    'matrix_ping_pong.wmv': 'asf',
    'mev.32bit.big.elf': 'elf',
    'mev.64bit.big.elf': 'elf',
    'minimal_xcf1.xcf': 'xcf',
    'my60k.ext2': 'ext2',
    'paktest.pak': 'prs_pak',
    'pentax_320x240.mov': 'mov',
    'pikachu.wmf': 'wmf',
    'ping_20020927-3ubuntu2': 'elf',
    'png_331x90x8_truncated.png': 'png',
    'radpoor.doc': 'ole2',
    'sample.tif': 'tiff',
    'small_text.tar': 'tar',
    'smallville.s03e02.avi': 'riff',
    'swat.blp': 'blp1',
    'test.txt.gz': 'gzip',
    'twunk_16.exe': 'exe',
    'usa_railroad.jpg': 'jpeg',
    'verdan32.exe': 'exe',
    'vim.lnk': 'lnk',
    'weka.model': 'java_serialized',
    'wormux_32x32_16c.ico': 'ico',
}


def run(ctx):
    ctx.model_check("SubfileMC", ctx.n("SubfileMC", "SubfileMCBig"), min_states=40000)
    scripts = ctx.export("SubfileMC", "SubfileGen")
    ctx.validate("SubfileTrace", ctx.pmap(sh.small, list(enumerate(scripts))),
                 what="small data")
    jobs = [{"name": "%s-%d" % (ctx.seed, i), "cli": i % 4 == 0}
            for i in range(ctx.n(2000, 30000))]
    ctx.validate("SubfileTrace", ctx.pmap(sh.planned, jobs), what="planned data")
    files = [(os.path.join(REPO + "/tests/files", f), i)
             for f, i in sorted(SAMPLES.items())]
    ctx.rng.shuffle(files)
    jobs = []
    for i in range(ctx.n(100, 1500)):
        # each sample in turn, with some others
        some = [files[i % len(files)]] + ctx.rng.sample(files, ctx.rng.randint(0, 2))
        ctx.rng.shuffle(some)
        jobs.append({"name": "real-%s-%d" % (ctx.seed, i), "files": some})
    ctx.validate("SubfileTrace", ctx.pmap(sh.real, jobs, seconds=120),
                 what="real files", chunk=100)
