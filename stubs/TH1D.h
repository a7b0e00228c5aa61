#pragma once
class TH1D;
