#pragma once
class TH2;
